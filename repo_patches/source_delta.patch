From f95099ec498354d2085d11f21086a61375f8a2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:08 +0000
Subject: [PATCH 01/33] fix: vector::push_back of one of the vector's own
 elements when it reallocates

The argument was read after the old storage had been released.
---
 include/cest/vector.hpp | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/cest/vector.hpp b/include/cest/vector.hpp
index ffea2bb..403eab5 100644
--- a/include/cest/vector.hpp
+++ b/include/cest/vector.hpp
@@ -186,22 +186,38 @@ public:
 
   constexpr void push_back(const value_type &value)
   {
-    if (0 == m_capacity) {
-      reserve(1);
-    } else if (m_capacity == m_size) {
-      reserve(m_capacity * 2);
+    if (m_capacity == m_size) {
+      grow_push_back(value);
+    } else {
+      std::construct_at(&m_p[m_size++],value);
     }
-    std::construct_at(&m_p[m_size++],value);
   }
 
   constexpr void push_back(value_type &&value)
   {
-    if (0 == m_capacity) {
-      reserve(1);
-    } else if (m_capacity == m_size) {
-      reserve(m_capacity * 2);
+    if (m_capacity == m_size) {
+      grow_push_back(std::forward<T>(value));
+    } else {
+      std::construct_at(&m_p[m_size++],std::forward<T>(value));
+    }
+  }
+
+  // As value may be an element of this vector, it is used before they move.
+  template <typename U>
+  constexpr void grow_push_back(U &&value)
+  {
+    const size_type new_cap = 0 == m_capacity ? 1 : m_capacity * 2;
+    value_type *p = m_alloc.allocate(new_cap);
+    std::construct_at(&p[m_size], std::forward<U>(value));
+    for (size_type i = 0; i < m_size; i++)
+      std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));
+    if (0 != m_capacity) {
+      std::destroy_n(m_p,m_size);
+      m_alloc.deallocate(m_p,m_capacity);
     }
-    std::construct_at(&m_p[m_size++],std::forward<T>(value));
+    m_p = p;
+    m_capacity = new_cap;
+    m_size++;
   }
 
   constexpr iterator erase(iterator first, iterator last)
-- 
2.43.0


From 0a92784c8f889d0798dc4cc245977672eaee0b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:41 +0000
Subject: [PATCH 02/33] fix: copying a basic_string stopped at the first
 embedded null character

---
 include/cest/string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 121a071..0a8458f 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -62,7 +62,8 @@ public:
   constexpr basic_string(const CharT* s, const Allocator &alloc = Allocator())
   : basic_string(s, traits_type::length(s), alloc) {}
 
-  constexpr basic_string(const basic_string& str) : basic_string(str.c_str()) {}
+  constexpr basic_string(const basic_string& str)
+  : basic_string(str.data(), str.size()) {}
 
   template <class InputIt>
   constexpr basic_string(InputIt __beg, InputIt __end,
-- 
2.43.0


From 12fbaa11b0de7baefe3a9ab266c7c2e5d19a835d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:41 +0000
Subject: [PATCH 03/33] fix: basic_string assignment of embedded nulls, of
 itself and of its own characters

Assignment from a string stopped at an embedded null, and when it had to
reallocate it read the argument after releasing the storage it points to.
---
 include/cest/string.hpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 0a8458f..4699b97 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -219,24 +219,29 @@ public:
 
   constexpr basic_string& operator=(const CharT* s)
   {
-    //const CharT* s  = str.c_str();
-    size_type count = traits_type::length(s);
+    return this->assign(s, traits_type::length(s));
+  }
+
+  constexpr basic_string& operator=(const basic_string& str) {
+    return this->assign(str.data(), str.size());
+  }
 
+  constexpr basic_string& assign(const CharT* s, size_type count)
+  {
     if (m_capacity < count+1) {
+      value_type *p = m_alloc.allocate(count+2); // +1 for the null terminator
+      for (size_type i = 0; i < count+2; i++)
+        std::construct_at(&p[i]);
+      traits_type::copy(p, s, count); // first, as s may point into this string
       m_alloc.deallocate(m_p, m_capacity+1);
+      m_p = p;
       m_capacity = count+1;                    // ensure m_capacity is not 0
-      m_p = m_alloc.allocate(m_capacity+1);    // +1 for the null terminator
-      for (size_type i = 0; i < m_capacity+1; i++)
-        std::construct_at(&m_p[i]);
+    } else {
+      traits_type::move(m_p, s, count);
     }
-    
-    traits_type::copy(m_p, s, count+1);
-    m_size = count;
-    return *this;
-  }
 
-  constexpr basic_string& operator=(const basic_string& str) {
-    return this->operator=(str.c_str());
+    traits_type::assign(this->data()[m_size = count], CharT());
+    return *this;
   }
 
   constexpr void reserve(size_type new_cap)
-- 
2.43.0


From f73bcb00b570faf002ca9c0ead64fdda85b57f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:41 +0000
Subject: [PATCH 04/33] fix: basic_string::find of a string stopped at the
 needle's first embedded null

---
 include/cest/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 4699b97..c7bc600 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -137,7 +137,7 @@ public:
 
   constexpr
   size_type find(const basic_string &str, size_type pos = 0) const noexcept {
-    return this->find(str.data(), pos);
+    return this->find(str.data(), pos, str.size());
   }
 
   constexpr size_type find(CharT ch, size_type /*pos*/ = 0) const noexcept {
-- 
2.43.0


From 43a0394c2f644461ade0cb62439d8cf5de6b0352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:41 +0000
Subject: [PATCH 05/33] fix: basic_string::find of a character ignored the
 start position

---
 include/cest/string.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index c7bc600..eb5bb51 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -140,8 +140,10 @@ public:
     return this->find(str.data(), pos, str.size());
   }
 
-  constexpr size_type find(CharT ch, size_type /*pos*/ = 0) const noexcept {
-    auto *p = traits_type::find(this->data(), this->size(), ch);
+  constexpr size_type find(CharT ch, size_type pos = 0) const noexcept {
+    if (pos >= this->size())
+      return npos;
+    auto *p = traits_type::find(this->data() + pos, this->size() - pos, ch);
     return p ? (p-this->data()) : npos;
   }
 
-- 
2.43.0


From 9d2573ce40fb3dc707a464683e2c7e1bec271092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:41 +0000
Subject: [PATCH 06/33] fix: basic_string::push_back of one of its own
 characters when it reallocates

---
 include/cest/string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index eb5bb51..7acd025 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -181,9 +181,10 @@ public:
   }
 
   constexpr void push_back(const value_type &value) {
+    const value_type ch = value; // value may be a character of this string
     if (m_size + 1 > m_capacity)
       reserve(m_capacity * 2);
-    traits_type::assign(this->data()[  m_size], value);
+    traits_type::assign(this->data()[  m_size], ch);
     traits_type::assign(this->data()[++m_size], CharT()); // null terminator
   }
 
-- 
2.43.0


From 198c833ce5a9a8fe3fa77fe98956271b9c262807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:41 +0000
Subject: [PATCH 07/33] fix: basic_string from an empty iterator range wrote
 through a null pointer

---
 include/cest/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 7acd025..9748e38 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -67,7 +67,7 @@ public:
 
   template <class InputIt>
   constexpr basic_string(InputIt __beg, InputIt __end,
-                         const Allocator& alloc = Allocator()) : m_alloc(alloc)
+                         const Allocator& alloc = Allocator()) : basic_string(alloc)
   {
     static_assert(std::is_same_v<
       std::input_iterator_tag,
-- 
2.43.0


From 470d5380433467c316e5a3099ff27c8051ccc99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:23 +0000
Subject: [PATCH 08/33] fix: floor and ceil were off by one where v - 1 or v +
 1 rounds to an integer

ceil(0.99999999999999989) was 2, as v + 1 rounds to 2.
---
 include/cest/cmath.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index 25e0aae..8f4f71c 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -118,7 +118,7 @@ namespace cest {
   }
 
   constexpr int ceil(double v) {
-    return ((double)(int)v != v && v > 0) ?  v + 1 : v;
+    return (double)(int)v < v ? (int)v + 1 : (int)v;
   }
 
   constexpr double cos(double x) {
@@ -130,7 +130,7 @@ namespace cest {
   }
 
   constexpr int floor(double v) {
-    return ((double)(int)v != v && v < 0) ?  v - 1 : v;
+    return (double)(int)v > v ? (int)v - 1 : (int)v;
   }
 
   constexpr double pow(double base, int exponent) {
-- 
2.43.0


From 0aca6f22f050ec2cefaf771ffe07737cbc1f3ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:23 +0000
Subject: [PATCH 09/33] fix: pow negated INT_MIN, and recursed once per unit of
 the exponent

The recursion overflowed the stack for exponents of a few hundred thousand.
---
 include/cest/cmath.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index 8f4f71c..8662010 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -134,10 +134,11 @@ namespace cest {
   }
 
   constexpr double pow(double base, int exponent) {
-    return exponent <  0 ? 1.0 / pow(base,-exponent) :
-           exponent == 0 ? 1.                        :
-           exponent == 1 ? base                      :
-           base * pow(base,exponent-1);
+    return exponent <  0 ? 1.0 / (base * pow(base,-(exponent+1))) :
+           exponent == 0 ? 1.                                     :
+           exponent == 1 ? base                                   :
+           exponent % 2  ? base * pow(base,exponent-1)            :
+           square(pow(base,exponent/2));
   }
 
   constexpr double sqrt(double x) {
-- 
2.43.0


From 513fda7b876e856e9e8d77802d2b923bce42c2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:23 +0000
Subject: [PATCH 10/33] fix: sqrt of zero and of infinity never terminated

---
 include/cest/cmath.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index 8662010..b560ceb 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -142,7 +142,8 @@ namespace cest {
   }
 
   constexpr double sqrt(double x) {
-    return sqrt_helper(x,1.0);
+    return x == 0 || x == std::numeric_limits<double>::infinity() ?
+           x : sqrt_helper(x,1.0);
   }
 
   constexpr double sin(double x) { 
-- 
2.43.0


From 169fb8f77f08cc133d90a49f8ccd061f03d511eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:50 +0000
Subject: [PATCH 11/33] fix: copying an empty shared_ptr dereferenced a null
 control block

---
 include/cest/shared_ptr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 9b465ed..afcfb7b 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -81,11 +81,11 @@ public:
     : ptr_{ptr}, pctrl_{new ctrl_derived<Y,Deleter>{ptr,del}} {}
 
   constexpr shared_ptr_base(const shared_ptr_base& r) noexcept
-    : ptr_{r.ptr_}, pctrl_{r.pctrl_} { ++pctrl_->count_; }
+    : ptr_{r.ptr_}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
 
   template <class Y>
   constexpr shared_ptr_base(const shared_ptr<Y>& r, element_type* ptr) noexcept
-    : ptr_{ptr}, pctrl_{r.pctrl_} { ++pctrl_->count_; }
+    : ptr_{ptr}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
 
   constexpr ~shared_ptr_base()
   {
-- 
2.43.0


From b477b85f853dba7d305ad803b66be712d7b43810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:50 +0000
Subject: [PATCH 12/33] fix: assigning a shared_ptr did not count the new owner
 nor release the old object

---
 include/cest/shared_ptr.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index afcfb7b..e0f3b56 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -87,6 +87,14 @@ public:
   constexpr shared_ptr_base(const shared_ptr<Y>& r, element_type* ptr) noexcept
     : ptr_{ptr}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
 
+  constexpr shared_ptr_base& operator=(const shared_ptr_base& r) noexcept
+  {
+    shared_ptr_base tmp{r};
+    nary::swap(ptr_, tmp.ptr_);
+    nary::swap(pctrl_, tmp.pctrl_);
+    return *this;
+  }
+
   constexpr ~shared_ptr_base()
   {
     if (pctrl_ && !--pctrl_->count_)
-- 
2.43.0


From 37c3656ff452dea722db2f3483cd2fd720828898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:02 +0000
Subject: [PATCH 13/33] fix: list iterators' postfix ++ and -- returned a node
 pointer instead of an iterator

---
 include/cest/list.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index 260725b..1f8596c 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -76,7 +76,7 @@ struct list {
     }
 
     constexpr auto      operator++(int)             noexcept { // post-incr
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr auto&     operator--()                noexcept {
@@ -84,7 +84,7 @@ struct list {
     }
 
     constexpr auto      operator--(int)             noexcept {
-      auto tmp(m_node); --(*this); return tmp; 
+      auto tmp(*this); --(*this); return tmp; 
     }
 
     constexpr bool      operator==(const iter& rhs) const noexcept {
@@ -118,7 +118,7 @@ struct list {
     }
 
     constexpr auto      operator++(int)                   noexcept {
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr auto&     operator--()                      noexcept {
@@ -126,7 +126,7 @@ struct list {
     }
 
     constexpr auto      operator--(int)                   noexcept {
-      auto tmp(m_node); --(*this); return tmp; 
+      auto tmp(*this); --(*this); return tmp; 
     }
 
     constexpr bool      operator==(const const_iter& rhs) const noexcept {
-- 
2.43.0


From b7b3218a3e91d545f347d21bf88b9a511f69d8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:02 +0000
Subject: [PATCH 14/33] fix: forward_list iterators' postfix ++ returned a node
 pointer instead of an iterator

---
 include/cest/forward_list.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index e4a1948..3c5ec8a 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -52,7 +52,7 @@ struct forward_list {
     }
 
     constexpr auto      operator++(int)             noexcept { // post-incr
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr bool      operator==(const iter& rhs) const noexcept {
@@ -86,7 +86,7 @@ struct forward_list {
     }
 
     constexpr auto      operator++(int)                   noexcept {
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr bool      operator==(const const_iter& rhs) const noexcept {
-- 
2.43.0


From 68c3c4d725515f2c8de11f9fb97e759558d1540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:02 +0000
Subject: [PATCH 15/33] fix: assigning a list to itself lost its elements

---
 include/cest/list.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index 1f8596c..cb05a77 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -147,6 +147,9 @@ struct list {
 
   constexpr list& operator=(const list& other)
   {
+    if (this == &other)
+      return *this;
+
     clear();
     for (auto it = other.cbegin(); it != other.cend(); ++it)
       push_back(*it);
-- 
2.43.0


From 41c81cd3d76885a68adcc405a6f09bd3235a4e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:42 +0000
Subject: [PATCH 16/33] fix: decrementing a deque iterator across a chunk
 boundary went to the first element of the previous chunk

---
 include/cest/deque.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 23edbae..59c1769 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -61,7 +61,7 @@ public:
     constexpr iter&     operator--()                noexcept { // pre-decr
       if (m_p == *m_ppchunk) {
         --m_ppchunk;
-        m_p = *m_ppchunk;
+        m_p = *m_ppchunk + CHUNK_SIZE - 1;
       } else {
         --m_p;
       }
@@ -122,7 +122,7 @@ public:
     constexpr const_iter& operator--()              noexcept { // pre-decr
       if (m_p == *m_ppchunk) {
         --m_ppchunk;
-        m_p = *m_ppchunk;
+        m_p = *m_ppchunk + CHUNK_SIZE - 1;
       } else {
         --m_p;
       }
-- 
2.43.0


From 7a847557055069a6478d78f9662deb121e3c2c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:42 +0000
Subject: [PATCH 17/33] fix: the difference of deque iterators ignored the
 chunks between them

---
 include/cest/deque.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 59c1769..d9ec1ac 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -81,7 +81,7 @@ public:
     constexpr operator-(const iter& __x, const iter& __y) noexcept
     {
       return CHUNK_SIZE
-        * (__x.m_ppchunk - __x.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
+        * (__x.m_ppchunk - __y.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
         + (*__y.m_ppchunk + CHUNK_SIZE - __y.m_p);
     }
 
@@ -142,7 +142,7 @@ public:
     constexpr operator-(const const_iter& __x, const const_iter& __y) noexcept
     {
       return CHUNK_SIZE
-        * (__x.m_ppchunk - __x.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
+        * (__x.m_ppchunk - __y.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
         + (*__y.m_ppchunk + CHUNK_SIZE - __y.m_p);
     }
 
-- 
2.43.0


From d0b3891bcc38690c1c3d4aa4391a92de36418137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:42 +0000
Subject: [PATCH 18/33] fix: deque::push_back into an existing next chunk wrote
 to the current one

---
 include/cest/deque.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index d9ec1ac..9b3ee3f 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -331,9 +331,9 @@ private:
       {
         value_type *p = m_alloc.allocate(CHUNK_SIZE);
         m_chunks.push_back(p);
-        ++m_back_chunk;
       }
       
+      ++m_back_chunk;
       m_back = 0;
     }
     else
-- 
2.43.0


From 88c8361f54065d97f9c9b2cbd0bd0832552e56ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:42 +0000
Subject: [PATCH 19/33] fix: assigning a deque to itself emptied it

---
 include/cest/deque.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 9b3ee3f..c12e5d9 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -181,6 +181,9 @@ public:
 
   constexpr deque& operator=(const deque& other)
   {
+    if (this == &other)
+      return *this;
+
     clear();
     for (size_type i = 0; i < other.size(); ++i)
       push_back(other[i]);
-- 
2.43.0


From caffc9c79163cf950891a98f81c9ecd1a30139d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:01 +0000
Subject: [PATCH 20/33] fix: deque iteration ran past end() when the last
 element fills a chunk

---
 include/cest/deque.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index c12e5d9..6bfde04 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -263,12 +263,18 @@ public:
     return {&m_chunks[m_front_chunk][m_front], &m_chunks[m_front_chunk]};
   }
   constexpr iterator          end()       noexcept {
+    if (m_back == CHUNK_SIZE - 1)
+      return {m_chunks[m_back_chunk+1], &m_chunks[m_back_chunk+1]};
     return {&m_chunks[m_back_chunk][m_back+1], &m_chunks[m_back_chunk]};
   }
   constexpr const_iterator    end() const noexcept {
+    if (m_back == CHUNK_SIZE - 1)
+      return {m_chunks[m_back_chunk+1], &m_chunks[m_back_chunk+1]};
     return {&m_chunks[m_back_chunk][m_back+1], &m_chunks[m_back_chunk]};
   }
   constexpr const_iterator   cend() const noexcept {
+    if (m_back == CHUNK_SIZE - 1)
+      return {m_chunks[m_back_chunk+1], &m_chunks[m_back_chunk+1]};
     return {&m_chunks[m_back_chunk][m_back+1], &m_chunks[m_back_chunk]};
   }
   constexpr reference       front() {
@@ -330,12 +336,6 @@ private:
   {
     if (m_back == CHUNK_SIZE - 1)
     {
-      if (m_back_chunk == m_chunks.size() - 1)
-      {
-        value_type *p = m_alloc.allocate(CHUNK_SIZE);
-        m_chunks.push_back(p);
-      }
-      
       ++m_back_chunk;
       m_back = 0;
     }
@@ -344,6 +344,13 @@ private:
       ++m_back;
     }
 
+    // The position after the last element, end(), also lies in a chunk
+    if (m_back == CHUNK_SIZE - 1 && m_back_chunk == m_chunks.size() - 1)
+    {
+      value_type *p = m_alloc.allocate(CHUNK_SIZE);
+      m_chunks.push_back(p);
+    }
+
     m_size++;
   }
 
-- 
2.43.0


From 5788a77cac48384ababe970249de4afbbfd10083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 21/33] fix: map::find with a key of another type did not
 compile

---
 include/cest/map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index c31b0fd..b16f9c6 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -245,7 +245,7 @@ public:
       else                             {              break; }
     }
 
-    return {n};
+    return iterator(n);
   }
 
   template <class K>
@@ -259,7 +259,7 @@ public:
       else                             {              break; }
     }
 
-    return {n};
+    return const_iterator(n);
   }
 
   constexpr void rotate_left(node *&n) {
-- 
2.43.0


From 2b282bf67a64a8cb9230dca91f2f0084d862871a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 22/33] fix: map iterators compared keys with == instead of
 node identity when climbing

---
 include/cest/map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index b16f9c6..876d0dd 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -62,7 +62,7 @@ public:
       else 
       {
         node *pn = curr_node->p;
-        while (pn && pn->r && curr_node->x.first == pn->r->x.first)
+        while (pn && pn->r && curr_node==pn->r)
         {
           curr_node = pn;
           pn = pn->p;
@@ -117,7 +117,7 @@ public:
       else 
       {
         node *pn = curr_node->p;
-        while (pn && pn->r && curr_node->x.first == pn->r->x.first)
+        while (pn && pn->r && curr_node==pn->r)
         {
           curr_node = pn;
           pn = pn->p;
-- 
2.43.0


From e2edac66c7d1601c6e2008c071cc7fff31b7796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 23/33] fix: assigning a map to itself emptied it

---
 include/cest/map.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index 876d0dd..b1289b0 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -168,6 +168,9 @@ public:
 
   constexpr map& operator=(const map& other)
   {
+    if (this == &other)
+      return *this;
+
     clear();
     for (auto it = other.begin(); it != other.end(); ++it)
       insert(*it);
-- 
2.43.0


From 16064a1022ab32784d17edf0f87981f3062071db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 24/33] fix: assigning a set to itself emptied it

---
 include/cest/set.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cest/set.hpp b/include/cest/set.hpp
index f1a86f2..c1cf451 100644
--- a/include/cest/set.hpp
+++ b/include/cest/set.hpp
@@ -109,6 +109,9 @@ public:
 
   constexpr set& operator=(const set& other)
   {
+    if (this == &other)
+      return *this;
+
     clear();
     for (auto it = other.begin(); it != other.end(); ++it)
       insert(*it);
-- 
2.43.0


From 2a24bf1103f7aa82369335ee3156acca74e42c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:27 +0000
Subject: [PATCH 25/33] fix: vector's list constructor leaked its elements when
 growing failed

---
 include/cest/vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cest/vector.hpp b/include/cest/vector.hpp
index 403eab5..83ad902 100644
--- a/include/cest/vector.hpp
+++ b/include/cest/vector.hpp
@@ -64,8 +64,9 @@ public:
 
   constexpr vector(std::initializer_list<T> init,
                    const Allocator& alloc = Allocator())
-    : m_size{}, m_capacity{}, m_p{}, m_alloc(alloc)
+    : vector()
   {
+    m_alloc = alloc;
     for (const auto &x : init) { push_back(x); }
   }
 
-- 
2.43.0


From fd1d641be0c24e126856bd934ecd6cfe9d4bf1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:21 +0000
Subject: [PATCH 26/33] fix: copying a forward_list leaked the nodes copied so
 far when an allocation failed

---
 include/cest/forward_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index 3c5ec8a..134a8ea 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -97,7 +97,7 @@ struct forward_list {
   };
 
   constexpr forward_list() = default;
-  constexpr forward_list(const forward_list& x)
+  constexpr forward_list(const forward_list& x) : forward_list()
   {
     const node_base* from = &x.m_front;
           node_base*   to = &this->m_front;
-- 
2.43.0


From 9f31a4a9f3fc9336ada0457053e5c7118f0e36c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:50 +0000
Subject: [PATCH 27/33] fix: a failed allocation in a noexcept string
 constructor terminated the program

---
 include/cest/string.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 9748e38..96faf86 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -34,11 +34,10 @@ public:
 
   static const size_type npos = static_cast<size_type>(-1);
 
-  constexpr basic_string() noexcept(noexcept( Allocator() )) :
-    basic_string( Allocator() ) {}
+  constexpr basic_string() : basic_string( Allocator() ) {}
 
   explicit constexpr
-  basic_string(const Allocator& alloc) noexcept : m_alloc(alloc)
+  basic_string(const Allocator& alloc) : m_alloc(alloc)
   {
     m_capacity = 1;                                // Unlike 0, a scalable value
     m_p = m_alloc.allocate(m_capacity+1);          // +1 for the null terminator
-- 
2.43.0


From 854f0190bdff83575f3a36b7f0d29ab94933f591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:50 +0000
Subject: [PATCH 28/33] fix: string reserve(npos) allocated nothing and wrote
 past it

---
 include/cest/string.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 96faf86..d54c818 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -7,6 +7,7 @@
 #include <memory>      // std::allocator
 #include <iterator>    // std::reverse_iterator
 #include <limits>      // std::numeric_limits
+#include <stdexcept>   // std::length_error
 #include <type_traits> // std::is_same_v
 
 namespace cest {
@@ -250,6 +251,8 @@ public:
   {
     if (new_cap > m_capacity)
     {
+      if (new_cap == npos) // new_cap+1 would wrap to 0
+        throw std::length_error("error: capacity in basic_string::reserve");
       value_type *p = m_alloc.allocate(new_cap+1); // for the null terminator
       for (size_type i = 0; i < new_cap+1; i++)
         std::construct_at(&p[i]);
-- 
2.43.0


From 3477ddc3a3d0adaec641dbd2bdebd43495a379fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:15 +0000
Subject: [PATCH 29/33] fix: a failed allocation in a deque leaked a chunk or
 left an element that was never constructed

---
 include/cest/deque.hpp | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 6bfde04..1411df9 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -152,10 +152,9 @@ public:
 
   constexpr deque()
   {
-    value_type *p = m_alloc.allocate(CHUNK_SIZE);
     m_front = CHUNK_SIZE / 2;
     m_back  = CHUNK_SIZE / 2 - 1;
-    m_chunks.push_back(p);
+    add_chunk();
     m_front_chunk = m_back_chunk = 0;
     m_size = 0;
   }
@@ -307,14 +306,25 @@ public:
 
 private:
 
+  // Neither a chunk nor the list of chunks is lost if an allocation fails
+  constexpr void add_chunk()
+  {
+    m_chunks.push_back(nullptr);
+    try {
+      m_chunks.back() = m_alloc.allocate(CHUNK_SIZE);
+    } catch (...) {
+      m_chunks.pop_back();
+      throw;
+    }
+  }
+
   constexpr void push_front_helper()
   {
     if (m_front == 0)
     {
       if (m_front_chunk == 0)
       {
-        value_type *p = m_alloc.allocate(CHUNK_SIZE);
-        m_chunks.push_back(p);
+        add_chunk();
         std::rotate(m_chunks.rbegin(), m_chunks.rbegin() + 1, m_chunks.rend());
         ++m_back_chunk;
       }
@@ -334,23 +344,24 @@ private:
 
   constexpr void push_back_helper()
   {
-    if (m_back == CHUNK_SIZE - 1)
+    size_type back = m_back, back_chunk = m_back_chunk;
+
+    if (back == CHUNK_SIZE - 1)
     {
-      ++m_back_chunk;
-      m_back = 0;
+      ++back_chunk;
+      back = 0;
     }
     else
     {
-      ++m_back;
+      ++back;
     }
 
     // The position after the last element, end(), also lies in a chunk
-    if (m_back == CHUNK_SIZE - 1 && m_back_chunk == m_chunks.size() - 1)
-    {
-      value_type *p = m_alloc.allocate(CHUNK_SIZE);
-      m_chunks.push_back(p);
-    }
+    if (back == CHUNK_SIZE - 1 && back_chunk == m_chunks.size() - 1)
+      add_chunk();
 
+    m_back       = back;
+    m_back_chunk = back_chunk;
     m_size++;
   }
 
-- 
2.43.0


From ba348b710fd65917390d213852daaaea885db882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:05 +0000
Subject: [PATCH 30/33] fix: operator<< inserts the whole string, not up to its
 first null character

---
 include/cest/string.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index d54c818..f49e01f 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -4,6 +4,7 @@
 #include "ostream.hpp"
 #include "runtime_ostream.hpp"
 #include <string>      // std::char_traits
+#include <string_view> // std::basic_string_view
 #include <memory>      // std::allocator
 #include <iterator>    // std::reverse_iterator
 #include <limits>      // std::numeric_limits
@@ -378,7 +379,8 @@ operator<<(
   basic_ostream<CharT, Traits>& os,
   const basic_string<CharT, Traits, Allocator>& str)
 {
-  impl::runtime_ostream(os, str.c_str());
+  impl::runtime_ostream(os, // all of it, including any null characters
+    std::basic_string_view<CharT, Traits>(str.data(), str.size()));
   return os;
 }
 
-- 
2.43.0


From 64930fbea4b09e828a2c7ea04259196e98155ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:05 +0000
Subject: [PATCH 31/33] fix: fprintf writes exactly the formatted text and
 reports errors

It wrote the text up to its first null character, printed an uninitialised
buffer when the conversion failed, and with no arguments did not format
at all and returned 0.
---
 include/cest/cstdio.hpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/include/cest/cstdio.hpp b/include/cest/cstdio.hpp
index 7ba7a78..17890a2 100644
--- a/include/cest/cstdio.hpp
+++ b/include/cest/cstdio.hpp
@@ -18,6 +18,8 @@ constexpr ostream* stdout = &cest::cout;
 constexpr ostream* stderr = &cest::cerr;
 
 // avoid warning: format string is not a string literal (-Wformat-security)
+#pragma GCC diagnostic push
+#pragma GCC diagnostic ignored "-Wformat-security"
 constexpr int printf(const char* format)
 {
   if (!std::is_constant_evaluated())
@@ -39,16 +41,6 @@ constexpr int printf(const char* format, Ts&&... xs)
   return 0; // positive; not an error; 0 characters output (constexpr)
 }
 
-constexpr int fprintf(ostream* stream, const char* format)
-{
-  if (!std::is_constant_evaluated())
-  {
-    (*stream) << format;
-  }
-
-  return 0;
-}
-
 // FILE* for param 1 would itroduce the issues described above. 
 template <typename... Ts>
 constexpr int fprintf(ostream* stream, const char* format, Ts&&... xs)
@@ -56,9 +48,12 @@ constexpr int fprintf(ostream* stream, const char* format, Ts&&... xs)
   if (!std::is_constant_evaluated())
   {
     int nbytes = std::snprintf(nullptr, 0, format, std::forward<Ts>(xs)...);
-    char *psz = new char[nbytes+1];
-    std::snprintf(psz, nbytes+1, format, std::forward<Ts>(xs)...);
-    (*stream) << psz;
+    if (nbytes < 0)
+      return nbytes; // an error: there is no text
+    const std::size_t len = nbytes;
+    char *psz = new char[len+1];
+    std::snprintf(psz, len+1, format, std::forward<Ts>(xs)...);
+    impl::runtime_ostream(*stream, std::string_view(psz, len));
     delete [] psz;
     return nbytes;
   }
@@ -66,6 +61,8 @@ constexpr int fprintf(ostream* stream, const char* format, Ts&&... xs)
   return 0;
 }
 
+#pragma GCC diagnostic pop
+
 constexpr FILE* fmemopen(char* buf, size_t size, const char* /*mode*/)
 {
   return new stringstream(string(buf,size));
-- 
2.43.0


From 25520eee0ca6e20586532af00be58ff65a00b177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:05 +0000
Subject: [PATCH 32/33] fix: printf without arguments formats its format string
 (%% is one percent sign)

---
 include/cest/cstdio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/cstdio.hpp b/include/cest/cstdio.hpp
index 17890a2..cf14f41 100644
--- a/include/cest/cstdio.hpp
+++ b/include/cest/cstdio.hpp
@@ -24,7 +24,7 @@ constexpr int printf(const char* format)
 {
   if (!std::is_constant_evaluated())
   {
-    return std::printf("%s", format);
+    return std::printf(format);
   }
 
   return 0;
-- 
2.43.0


From efac088525c9c5bb070fdfd58dd07f11489bb2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:19 +0000
Subject: [PATCH 33/33] fix: shared_ptr deletes the object when its bookkeeping
 cannot be allocated

---
 include/cest/shared_ptr.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index e0f3b56..df97d8c 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -74,11 +74,18 @@ public:
 
   template <class Y>
   explicit constexpr shared_ptr_base(Y* ptr)
-    : ptr_{ptr}, pctrl_{new ctrl_derived<Y,def_del<Td>>{ptr,def_del<Td>{}}} {}
+    : shared_ptr_base(ptr, def_del<Td>{}) {}
 
   template <class Y, class Deleter>
-  constexpr shared_ptr_base(Y* ptr, Deleter del)
-    : ptr_{ptr}, pctrl_{new ctrl_derived<Y,Deleter>{ptr,del}} {}
+  constexpr shared_ptr_base(Y* ptr, Deleter del) : ptr_{ptr}
+  {
+    try {
+      pctrl_ = new ctrl_derived<Y,Deleter>{ptr,del};
+    } catch (...) {
+      del(ptr); // the object is owned, even when this fails
+      throw;
+    }
+  }
 
   constexpr shared_ptr_base(const shared_ptr_base& r) noexcept
     : ptr_{r.ptr_}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
-- 
2.43.0

