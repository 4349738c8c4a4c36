From 913938b6ee4df26282a34b9798b3d39bb0bc38c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:31 +0000
Subject: [PATCH 01/81] fix: vector::resize(0) left the size unchanged

---
 include/nanovector.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/nanovector.h b/include/nanovector.h
index 130f3d9..33ad3bc 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -82,10 +82,6 @@ class vector {
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL void resize(size_type count) {
-    if (count < 1) {
-      return;
-    }
-
     if (count > capacity()) {
       // TODO(LTE): Use memcpy() or realloc() like functionality to speed up
       // resizing.
-- 
2.43.0


From b380ab380bde8e8aa5d2b3e8f33df599d5024aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:49 +0000
Subject: [PATCH 02/81] fix: vector::resize exposed uninitialized or stale
 elements when growing

---
 include/nanovector.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nanovector.h b/include/nanovector.h
index 33ad3bc..2efc33a 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -107,6 +107,11 @@ class vector {
       capacity_ = new_capacity;
     }
 
+    // appended elements are value-initialized
+    for (size_type i = size(); i < count; i++) {
+      elements_[i] = value_type();
+    }
+
     size_ = count;
   }
 
-- 
2.43.0


From 1952f39b9e603da6003d5249af106a94c1f69415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:51 +0000
Subject: [PATCH 03/81] fix: vector::push_back of the vector's own element read
 freed memory

---
 include/nanovector.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nanovector.h b/include/nanovector.h
index 2efc33a..b6e2004 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -116,8 +116,10 @@ class vector {
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL void push_back(const value_type& val) {
+    // `val` may refer to an element of this vector, and resize() may free it.
+    const value_type tmp(val);
     resize(size() + 1);
-    elements_[size_ - 1] = val;
+    elements_[size_ - 1] = tmp;
   }
 
   // void push_back(value_type &val); // C++11
-- 
2.43.0


From f17d31c1985cb7ac01e54748a47331a807601d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:53 +0000
Subject: [PATCH 04/81] fix: vector/valarray erase returned the end instead of
 the next element

---
 include/nanovalarray.h | 5 ++---
 include/nanovector.h   | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/nanovalarray.h b/include/nanovalarray.h
index dfb92ac..8ebf676 100644
--- a/include/nanovalarray.h
+++ b/include/nanovalarray.h
@@ -149,9 +149,8 @@ class valarray {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   inline iterator erase(iterator pos) {
-    while ((pos + 1) != end()) {
-      (*pos) = *(pos + 1);
-      pos++;
+    for (iterator p = pos; (p + 1) != end(); p++) {
+      (*p) = *(p + 1);
     }
     size_--;
 
diff --git a/include/nanovector.h b/include/nanovector.h
index b6e2004..21a14f6 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -153,9 +153,8 @@ class vector {
   }
 
   inline iterator erase(iterator pos) {
-    while ((pos + 1) != end()) {
-      (*pos) = *(pos + 1);
-      pos++;
+    for (iterator p = pos; (p + 1) != end(); p++) {
+      (*p) = *(p + 1);
     }
     size_--;
 
-- 
2.43.0


From 0ccf9faae16456267a287459dc42aedcc1b6be08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:55 +0000
Subject: [PATCH 05/81] fix: valarray resize(0) was ignored and grown elements
 were uninitialized

---
 include/nanovalarray.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/nanovalarray.h b/include/nanovalarray.h
index 8ebf676..aeccca3 100644
--- a/include/nanovalarray.h
+++ b/include/nanovalarray.h
@@ -82,10 +82,6 @@ class valarray {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   void resize(size_type count) {
-    if (count < 1) {
-      return;
-    }
-
     if (count > capacity()) {
       // TODO(LTE): Use memcpy() or realloc() like functionality to speed up
       // resizing.
@@ -111,6 +107,11 @@ class valarray {
       capacity_ = new_capacity;
     }
 
+    // appended elements are value-initialized
+    for (size_type i = size(); i < count; i++) {
+      elements_[i] = value_type();
+    }
+
     size_ = count;
   }
 
-- 
2.43.0


From 0c5db6555437d1971b221f479e33137b9ed1c874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:25 +0000
Subject: [PATCH 06/81] fix: string::empty() was false for every empty string

---
 include/nanostring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 8b99b55..8fcc6c1 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -94,7 +94,7 @@ class basic_string {
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  bool empty() const { return data_.size() == 0; }
+  bool empty() const { return size() == 0; }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   size_type size() const {
-- 
2.43.0


From ba8ee47d915744aa00bb00ad8f754e2e4072e433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:27 +0000
Subject: [PATCH 07/81] fix: string range and count constructors lost the NUL
 terminator and over-read

---
 include/nanostring.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 8fcc6c1..a2b8607 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -79,11 +79,12 @@ class basic_string {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   basic_string(const charT *first, const charT *last) {
-    const char *s = first;
-    while (s && (s <= last)) {
+    const charT *s = first;
+    while (s && (s < last)) {
       data_.push_back(*s);
       s++;
     }
+    data_.push_back('\0');
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
@@ -91,6 +92,7 @@ class basic_string {
     for (size_type i = 0; i < count; i++) {
       data_.push_back(s[i]);
     }
+    data_.push_back('\0');
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-- 
2.43.0


From c75c1bbe548551511063af8136bd1f7709f59fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:28 +0000
Subject: [PATCH 08/81] fix: appending a string to itself read freed memory and
 lost the terminator

---
 include/nanostring.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index a2b8607..3a8ec28 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -203,6 +203,8 @@ basic_string<charT> basic_string<charT>::operator+(
 template <class charT>
 basic_string<charT> &basic_string<charT>::operator+=(
     const basic_string<charT> &s) {
+  const size_type n = s.size();  // `s` may be *this
+
   // remove '\0'
   if (data_.size() < 1) {
     // this should not be happen
@@ -210,15 +212,10 @@ basic_string<charT> &basic_string<charT>::operator+=(
     data_.pop_back();
   }
 
-  const_iterator first = s.data_.begin();
-  const_iterator last = s.data_.end(); // this contains `\0`
-
-  for (; first != last; ++first) {
-#ifdef NANOSTL_DEBUG
-    printf("first = %c\n", *first);
-#endif
-    data_.push_back(*first);
+  for (size_type i = 0; i < n; i++) {
+    data_.push_back(s.data_[i]);
   }
+  data_.push_back('\0');
 
 #ifdef NANOSTL_DEBUG
   printf("data_ = %s\n", &data_.at(0));
-- 
2.43.0


From bc69e29a5d786ffa4561719d8ac70fdcd48e4332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:30 +0000
Subject: [PATCH 09/81] fix: string comparison ignored everything after an
 embedded NUL

---
 include/nanostring.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 3a8ec28..22893bf 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -133,11 +133,17 @@ class basic_string {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   int compare(const basic_string &str) const {
-    return compare_(&data_[0], &str[0]);
+    return compare_(&data_[0], size(), &str[0], str.size());
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  int compare(const charT *s) const { return compare_(&data_[0], s); }
+  int compare(const charT *s) const {
+    size_type n = 0;
+    while (s[n] != '\0') {
+      n++;
+    }
+    return compare_(&data_[0], size(), s, n);
+  }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   iterator erase(iterator pos) { return data_.erase(pos); }
@@ -181,10 +187,18 @@ class basic_string {
  private:
   nanostl::vector<charT> data_;
 
-  inline int compare_(const charT *p, const charT *q) const {
-    while (*p && (*p == *q)) {
+  // A string may contain '\0', so the lengths decide, not the terminators.
+  inline int compare_(const charT *p, size_type np, const charT *q,
+                      size_type nq) const {
+    while (np && nq && (*p == *q)) {
       p++;
       q++;
+      np--;
+      nq--;
+    }
+
+    if (!np || !nq) {
+      return (np ? 1 : 0) - (nq ? 1 : 0);
     }
 
     return *reinterpret_cast<const unsigned char *>(p) -
-- 
2.43.0


From d50c353f871b0171263831aa28597f23c3bcbd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:46 +0000
Subject: [PATCH 10/81] fix: stof was declared but not defined, and the
 implementation did not compile as documented

---
 include/nanostring.h | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 22893bf..0dcd4d3 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -281,8 +281,6 @@ float stod(const nanostl::string &str, nanostl::size_t *idx = nullptr);
 
 #if defined(NANOSTL_STRING_IMPLEMENTATION)
 
-#include "fast_float/fast_float.h"
-
 NANOSTL_HOST_AND_DEVICE_QUAL
 string to_string(int value) {
   // naiive implementation of base-10 int to ascii
@@ -397,7 +395,6 @@ string to_string(double value) {
   return string(buf);
 }
 
-#if 0
 NANOSTL_HOST_AND_DEVICE_QUAL
 float stof(const nanostl::string &str, nanostl::size_t *idx) {
   (void)idx;  // TODO(LTE):
@@ -411,8 +408,6 @@ float stof(const nanostl::string &str, nanostl::size_t *idx) {
 
   return value;
 }
-#else
-#endif
 
 NANOSTL_HOST_AND_DEVICE_QUAL
 float stod(const nanostl::string &str, nanostl::size_t *idx) {
-- 
2.43.0


From fb857135dbe4ecc9d57912b7fb8ebff5e9950b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:56 +0000
Subject: [PATCH 11/81] fix: stod truncated its result to float

---
 include/nanostring.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 0dcd4d3..285b3b5 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -271,7 +271,7 @@ NANOSTL_HOST_AND_DEVICE_QUAL
 float stof(const nanostl::string &str, nanostl::size_t *idx = nullptr);
 
 NANOSTL_HOST_AND_DEVICE_QUAL
-float stod(const nanostl::string &str, nanostl::size_t *idx = nullptr);
+double stod(const nanostl::string &str, nanostl::size_t *idx = nullptr);
 
 #if defined(NANOSTL_IMPLEMENTATION)
 #ifndef NANOSTL_STRING_IMPLEMENTATION
@@ -410,7 +410,7 @@ float stof(const nanostl::string &str, nanostl::size_t *idx) {
 }
 
 NANOSTL_HOST_AND_DEVICE_QUAL
-float stod(const nanostl::string &str, nanostl::size_t *idx) {
+double stod(const nanostl::string &str, nanostl::size_t *idx) {
   (void)idx;  // TODO(LTE):
   double value;
   ryu::RyuStatus ret = ryu::s2d_n(str.c_str(), str.size(), &value);
-- 
2.43.0


From 1d9009b20fde814381d6528bdb6d4ab97eb295c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:16 +0000
Subject: [PATCH 12/81] fix: to_string(int/int64_t) overflowed its buffer and
 truncated 64-bit values

---
 include/nanostring.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 285b3b5..a09c84d 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -298,13 +298,15 @@ string to_string(int value) {
     }
   };
 
-  char buffer[numeric_limits<int>::digits10 + 2];  // +2 for sign and null
+  // +3 for the leading digit, sign and null
+  char buffer[numeric_limits<int>::digits10 + 3];
 
-  int n = (value < 0) ? -value : value;  // abs
+  unsigned int n = static_cast<unsigned int>(value);
+  if (value < 0) n = 0u - n;  // abs. -value would overflow for INT_MIN
   int i = 0;
   int base = 10;
   while (n) {
-    int r = n % base;
+    int r = static_cast<int>(n % base);
 
     if (r >= 10) {
       buffer[i++] = 'A' + (r - 10);  //
@@ -346,13 +348,15 @@ string to_string(int64_t value) {
     }
   };
 
-  char buffer[numeric_limits<int64_t>::digits10 + 2];  // +2 for sign and null
+  // +3 for the leading digit, sign and null
+  char buffer[numeric_limits<int64_t>::digits10 + 3];
 
-  int n = (value < 0) ? -value : value;  // abs
+  uint64_t n = static_cast<uint64_t>(value);
+  if (value < 0) n = 0u - n;  // abs. -value would overflow for INT64_MIN
   int i = 0;
   int base = 10;
   while (n) {
-    int r = n % base;
+    int r = static_cast<int>(n % base);
 
     if (r >= 10) {
       buffer[i++] = 'A' + (r - 10);  //
-- 
2.43.0


From 474e5883daebbfb47979455fa83fc3b77bbbbb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:18 +0000
Subject: [PATCH 13/81] fix: to_string(unsigned int/uint64_t) were declared but
 not defined

---
 include/nanostring.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/nanostring.h b/include/nanostring.h
index a09c84d..aa0eef8 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -382,6 +382,26 @@ string to_string(int64_t value) {
   return string(buffer);
 }
 
+NANOSTL_HOST_AND_DEVICE_QUAL
+string to_string(uint64_t value) {
+  char buffer[numeric_limits<uint64_t>::digits10 + 2];  // +2 for a digit and null
+
+  int i = static_cast<int>(sizeof(buffer)) - 1;
+  buffer[i] = '\0';
+
+  do {
+    buffer[--i] = static_cast<char>('0' + value % 10);
+    value /= 10;
+  } while (value);
+
+  return string(buffer + i);
+}
+
+NANOSTL_HOST_AND_DEVICE_QUAL
+string to_string(unsigned int value) {
+  return to_string(static_cast<uint64_t>(value));
+}
+
 // TODO: Move implementation to .cc and remove `static`
 NANOSTL_HOST_AND_DEVICE_QUAL
 string to_string(float value) {
-- 
2.43.0


From 8dfbcc39b6d7b9ae1d0ec55d749ee9c3d366faec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:38 +0000
Subject: [PATCH 14/81] fix: operator<<(ostream, string) recursed forever and
 was defined in every translation unit

---
 include/nanoiostream.h | 5 +++++
 include/nanostring.h   | 8 +-------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/nanoiostream.h b/include/nanoiostream.h
index 7e9afb9..3b0dce0 100644
--- a/include/nanoiostream.h
+++ b/include/nanoiostream.h
@@ -192,6 +192,11 @@ basic_ostream<char, nanostl::char_traits<char>>::operator<<(const void *__n)
 }
 
 
+inline ostream &operator<<(ostream &os, const string &s)
+{
+  return os << static_cast<const void *>(s.c_str());
+}
+
 // --------------------------------------
 
 // Need to link with iostream.cc
diff --git a/include/nanostring.h b/include/nanostring.h
index aa0eef8..c539e21 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -241,13 +241,7 @@ basic_string<charT> &basic_string<charT>::operator+=(
 
 typedef basic_string<char> string;
 
-// stream
-ostream &operator<<(ostream &os, const string &s)
-{
-  os << s;
-
-  return os;
-}
+// `operator<<(ostream &, const string &)` is in nanoiostream.h
 
 NANOSTL_HOST_AND_DEVICE_QUAL
 string to_string(int value);
-- 
2.43.0


From a1100241938393b04ab4d8c032f59c964ebd24ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:01 +0000
Subject: [PATCH 15/81] fix: ostream::operator<<(const void *) was defined in
 every translation unit

---
 include/nanoiostream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanoiostream.h b/include/nanoiostream.h
index 3b0dce0..6425673 100644
--- a/include/nanoiostream.h
+++ b/include/nanoiostream.h
@@ -177,7 +177,7 @@ basic_ostream<_CharT, _Traits>::operator<<(double __n)
 }
 
 template<>
-basic_ostream<char, nanostl::char_traits<char>>&
+inline basic_ostream<char, nanostl::char_traits<char>>&
 basic_ostream<char, nanostl::char_traits<char>>::operator<<(const void *__n)
 {
   // FIXME: Assume const char *
-- 
2.43.0


From 60b26789bc87616a90b9455773dbd3ed60bd5bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:03 +0000
Subject: [PATCH 16/81] fix: map::begin() was the treap root, so iteration
 skipped smaller keys

---
 include/nanomap.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index 3c30785..58eacb8 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -126,7 +126,11 @@ class map {
   // accessors:
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  iterator begin() { return iterator(this, root); }
+  iterator begin() {
+    Node* t = root;
+    while (t && t->ch[0]) t = t->ch[0];  // smallest key
+    return iterator(this, t);
+  }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   iterator end() { return iterator(this, 0); }
-- 
2.43.0


From d6dcade4d3b2f1f633c1237605ef69b8f6b5c822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:05 +0000
Subject: [PATCH 17/81] fix: map iterator comparison dereferenced end() and !=
 did not compile

---
 include/nanomap.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index 58eacb8..f98ce35 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -98,17 +98,12 @@ class map {
 
     NANOSTL_HOST_AND_DEVICE_QUAL
     bool operator==(const iterator& rhs) const {
-      if (rhs.isEnd() && this->isEnd()) return true;
-      return *rhs == this->p->val;
+      return this->p == rhs.p;
     }
 
     NANOSTL_HOST_AND_DEVICE_QUAL
     bool operator!=(const iterator& rhs) const {
-      if (rhs.isEnd() && this->isEnd())
-        return false;
-      else if (rhs.isEnd() || this->isEnd())
-        return true;
-      return *rhs != this->p->val;
+      return this->p != rhs.p;
     }
 
     NANOSTL_HOST_AND_DEVICE_QUAL
-- 
2.43.0


From b86c6867585ecf8066dfbb21361dca59880c1954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:07 +0000
Subject: [PATCH 18/81] fix: map::find, upper_bound and end() did not compile
 on a const map

---
 include/nanomap.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index f98ce35..635e0e5 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -131,7 +131,7 @@ class map {
   iterator end() { return iterator(this, 0); }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  const_iterator end() const { return iterator(this, 0); }
+  const_iterator end() const { return __iterator(0); }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   bool empty() const { return !root; }
@@ -157,13 +157,13 @@ class map {
   NANOSTL_HOST_AND_DEVICE_QUAL
   const_iterator find(const key_type& key) const {
     Node* t = __find(root, key);
-    return (!t) ? this->end() : iterator(this, t);
+    return (!t) ? this->end() : __iterator(t);
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   const_iterator upper_bound(const key_type& key) const {
     Node* t = __upper_bound(root, key);
-    return (!t) ? this->end() : iterator(this, t);
+    return (!t) ? this->end() : __iterator(t);
   }
 
   // debug:
@@ -177,6 +177,12 @@ class map {
  private:
   Node* root;
 
+  // There is no read-only iterator class, also the const members give `iterator`.
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  iterator __iterator(Node* t) const {
+    return iterator(const_cast<map<Key, T>*>(this), t);
+  }
+
   // b: the direction of rotation
   NANOSTL_HOST_AND_DEVICE_QUAL
   Node* __rotate(Node* t, int b) {
-- 
2.43.0


From c9d93af69a52aa6d9f5e4a11555a5dea58997beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:08 +0000
Subject: [PATCH 19/81] fix: copying a map shared its nodes and freed them
 twice

---
 include/nanomap.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/nanomap.h b/include/nanomap.h
index 635e0e5..596dfdf 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -115,6 +115,19 @@ class map {
   NANOSTL_HOST_AND_DEVICE_QUAL
   map() { root = 0; }
 
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  map(const map& rhs) { root = __copy(rhs.root); }
+
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  map& operator=(const map& rhs) {
+    if (this != &rhs) {
+      Node* t = __copy(rhs.root);
+      __delete(root);
+      root = t;
+    }
+    return *this;
+  }
+
   NANOSTL_HOST_AND_DEVICE_QUAL
   ~map() { __delete(root); }
 
@@ -226,6 +239,16 @@ class map {
     return __upper_bound(t->ch[1], key);
   }
 
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  static Node* __copy(const Node* t) {
+    if (!t) return 0;
+    Node* n = new Node(t->val);
+    n->pri = t->pri;
+    n->ch[0] = __copy(t->ch[0]);
+    n->ch[1] = __copy(t->ch[1]);
+    return n;
+  }
+
   NANOSTL_HOST_AND_DEVICE_QUAL
   void __delete(Node* t) {
     if (!t) return;
-- 
2.43.0


From 5dc3ffde6dbce79ba092584d36fa14213598f3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:10 +0000
Subject: [PATCH 20/81] fix: pair() left its members uninitialized

---
 include/nanoutility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanoutility.h b/include/nanoutility.h
index b5c75ee..67935eb 100644
--- a/include/nanoutility.h
+++ b/include/nanoutility.h
@@ -34,7 +34,7 @@ template <class T1, class T2>
 struct pair {
   T1 first;
   T2 second;
-  pair() {}
+  pair() : first(), second() {}
   pair(const T1& a, const T2& b) : first(a), second(b) {}
 };
 
-- 
2.43.0


From 2e67a1bf38f9e2deb00108e4204aef4dc2affa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:34 +0000
Subject: [PATCH 21/81] fix: thread atomic store and swap left 0 instead of the
 stored value

---
 src/libs_thread.h | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 7620d93..37ae830 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1037,8 +1037,7 @@ void thread_atomic_int_store( thread_atomic_int_t* atomic, int desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        __sync_lock_test_and_set( &atomic->i, desired );
-        __sync_lock_release( &atomic->i );
+        __atomic_exchange_n( &atomic->i, (long) desired, __ATOMIC_SEQ_CST );
 
     #else
         #error Unknown platform.
@@ -1118,9 +1117,7 @@ int thread_atomic_int_swap( thread_atomic_int_t* atomic, int desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        int old = (int)__sync_lock_test_and_set( &atomic->i, desired );
-        __sync_lock_release( &atomic->i );
-        return old;
+        return (int)__atomic_exchange_n( &atomic->i, (long) desired, __ATOMIC_SEQ_CST );
 
     #else
         #error Unknown platform.
@@ -1174,8 +1171,7 @@ void thread_atomic_ptr_store( thread_atomic_ptr_t* atomic, void* desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        __sync_lock_test_and_set( &atomic->ptr, desired );
-        __sync_lock_release( &atomic->ptr );
+        __atomic_exchange_n( &atomic->ptr, desired, __ATOMIC_SEQ_CST );
 
     #else
         #error Unknown platform.
@@ -1196,9 +1192,7 @@ void* thread_atomic_ptr_swap( thread_atomic_ptr_t* atomic, void* desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        void* old = __sync_lock_test_and_set( &atomic->ptr, desired );
-        __sync_lock_release( &atomic->ptr );
-        return old;
+        return __atomic_exchange_n( &atomic->ptr, desired, __ATOMIC_SEQ_CST );
 
     #else
         #error Unknown platform.
-- 
2.43.0


From e61c9f4d9ce0a980b4d2201bb146c1548b6aa84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:35 +0000
Subject: [PATCH 22/81] fix: thread_signal_wait could time out up to a second
 early

---
 src/libs_thread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 37ae830..dbf7e2c 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -984,7 +984,7 @@ int thread_signal_wait( thread_signal_t* signal, int timeout_ms )
             {
             struct timeval tv;
             gettimeofday( &tv, NULL );
-            ts.tv_sec = time( NULL ) + timeout_ms / 1000;
+            ts.tv_sec = tv.tv_sec + timeout_ms / 1000; // time() may lag behind gettimeofday()
             ts.tv_nsec = tv.tv_usec * 1000 + 1000 * 1000 * ( timeout_ms % 1000 );
             ts.tv_sec += ts.tv_nsec / ( 1000 * 1000 * 1000 );
             ts.tv_nsec %= ( 1000 * 1000 * 1000 );
-- 
2.43.0


From 673912ab31cc0cc5b1f46a6eb80d4ced25f46f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:36 +0000
Subject: [PATCH 23/81] fix: thread queue ignored its timeouts and produced to
 a full or consumed from an empty queue

---
 src/libs_thread.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index dbf7e2c..a455616 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1389,16 +1389,18 @@ int thread_queue_produce( thread_queue_t* queue, void* value, int timeout_ms )
             queue->id_produce = thread_current_thread_id();
         assert( thread_current_thread_id() == queue->id_produce );
     #endif
-    if( thread_atomic_int_load( &queue->count ) == queue->size )
+    // `while`, because the signal may still be raised from a transition nobody was waiting for
+    while( thread_atomic_int_load( &queue->count ) == queue->size )
         {
         if( timeout_ms == 0 ) return 0;
-        thread_signal_wait( &queue->space_open, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms );
+        if( !thread_signal_wait( &queue->space_open, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms ) )
+            return 0;
         }
     int tail = thread_atomic_int_inc( &queue->tail );
     queue->values[ tail % queue->size ] = value;
     if( thread_atomic_int_inc( &queue->count ) == 0 )
         thread_signal_raise( &queue->data_ready );
-    return 0;
+    return 1;
     }
 
 
@@ -1409,10 +1411,11 @@ void* thread_queue_consume( thread_queue_t* queue, int timeout_ms )
             queue->id_consume = thread_current_thread_id();
         assert( thread_current_thread_id() == queue->id_consume );
     #endif
-    if( thread_atomic_int_load( &queue->count ) == 0 )
+    while( thread_atomic_int_load( &queue->count ) == 0 )
         {
         if( timeout_ms == 0 ) return NULL;
-        thread_signal_wait( &queue->data_ready, THREAD_SIGNAL_WAIT_INFINITE );
+        if( !thread_signal_wait( &queue->data_ready, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms ) )
+            return NULL;
         }
     int head = thread_atomic_int_inc( &queue->head );
     void* retval = queue->values[ head % queue->size ];
-- 
2.43.0


From 96fc3af399a70109422ef9cd55954cfb2a721ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:31 +0000
Subject: [PATCH 24/81] fix: thread queue indexed out of bounds after 2^31
 elements

---
 src/libs_thread.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index a455616..59caadc 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1396,8 +1396,9 @@ int thread_queue_produce( thread_queue_t* queue, void* value, int timeout_ms )
         if( !thread_signal_wait( &queue->space_open, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms ) )
             return 0;
         }
-    int tail = thread_atomic_int_inc( &queue->tail );
-    queue->values[ tail % queue->size ] = value;
+    int tail = thread_atomic_int_load( &queue->tail ) % queue->size;
+    queue->values[ tail ] = value;
+    thread_atomic_int_store( &queue->tail, tail + 1 ); // never grows past `size`, so it can't overflow
     if( thread_atomic_int_inc( &queue->count ) == 0 )
         thread_signal_raise( &queue->data_ready );
     return 1;
@@ -1417,8 +1418,9 @@ void* thread_queue_consume( thread_queue_t* queue, int timeout_ms )
         if( !thread_signal_wait( &queue->data_ready, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms ) )
             return NULL;
         }
-    int head = thread_atomic_int_inc( &queue->head );
-    void* retval = queue->values[ head % queue->size ];
+    int head = thread_atomic_int_load( &queue->head ) % queue->size;
+    void* retval = queue->values[ head ];
+    thread_atomic_int_store( &queue->head, head + 1 ); // never grows past `size`, so it can't overflow
     if( thread_atomic_int_dec( &queue->count ) == queue->size )
         thread_signal_raise( &queue->space_open );
     return retval;
-- 
2.43.0


From 1f4656dcef3d343b8ee0d5ed4ff35aa1c450cfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:57 +0000
Subject: [PATCH 25/81] fix: thread_atomic_int compare_and_swap failed after
 the value wrapped around

---
 src/libs_thread.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 59caadc..56e28e1 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -538,7 +538,11 @@ union thread_signal_t
 union thread_atomic_int_t
     {
     void* align;
-    long i;
+    #if defined( _WIN32 )
+        long i;
+    #else
+        int i; // `long` is 64 bits here, and would not wrap like the `int` of the API
+    #endif
     };
 
 union thread_atomic_ptr_t
@@ -1037,7 +1041,7 @@ void thread_atomic_int_store( thread_atomic_int_t* atomic, int desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        __atomic_exchange_n( &atomic->i, (long) desired, __ATOMIC_SEQ_CST );
+        __atomic_exchange_n( &atomic->i, desired, __ATOMIC_SEQ_CST );
 
     #else
         #error Unknown platform.
@@ -1117,7 +1121,7 @@ int thread_atomic_int_swap( thread_atomic_int_t* atomic, int desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        return (int)__atomic_exchange_n( &atomic->i, (long) desired, __ATOMIC_SEQ_CST );
+        return (int)__atomic_exchange_n( &atomic->i, desired, __ATOMIC_SEQ_CST );
 
     #else
         #error Unknown platform.
-- 
2.43.0


From d333f4a8b477fdf9405f138112e1ed2731a0d3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:20 +0000
Subject: [PATCH 26/81] fix: stof/stod returned a number instead of NaN for
 inputs without digits

---
 include/__nanostrutil.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/__nanostrutil.h b/include/__nanostrutil.h
index 3ccc29f..41d5319 100644
--- a/include/__nanostrutil.h
+++ b/include/__nanostrutil.h
@@ -1394,6 +1394,10 @@ static enum RyuStatus s2f_n(const char * buffer, const int len, float * result)
       m10digits++;
     }
   }
+  if (i - (signedM ? 1 : 0) - (dotIndex != len ? 1 : 0) == 0) {
+    // no digit in the mantissa, e.g. "-", "." or "e5"
+    return RYU_MALFORMED_INPUT;
+  }
   if (i < len && ((buffer[i] == 'e') || (buffer[i] == 'E'))) {
     eIndex = i;
     i++;
@@ -1401,6 +1405,10 @@ static enum RyuStatus s2f_n(const char * buffer, const int len, float * result)
       signedE = buffer[i] == '-';
       i++;
     }
+    if (i == len) {
+      // no digit in the exponent, e.g. "1e" or "1e-"
+      return RYU_MALFORMED_INPUT;
+    }
     for (; i < len; i++) {
       char c = buffer[i];
       if ((c < '0') || (c > '9')) {
@@ -1617,6 +1625,10 @@ static enum RyuStatus s2d_n(const char * buffer, const int len, double * result)
       m10digits++;
     }
   }
+  if (i - (signedM ? 1 : 0) - (dotIndex != len ? 1 : 0) == 0) {
+    // no digit in the mantissa, e.g. "-", "." or "e5"
+    return RYU_MALFORMED_INPUT;
+  }
   if (i < len && ((buffer[i] == 'e') || (buffer[i] == 'E'))) {
     eIndex = i;
     i++;
@@ -1624,6 +1636,10 @@ static enum RyuStatus s2d_n(const char * buffer, const int len, double * result)
       signedE = buffer[i] == '-';
       i++;
     }
+    if (i == len) {
+      // no digit in the exponent, e.g. "1e" or "1e-"
+      return RYU_MALFORMED_INPUT;
+    }
     for (; i < len; i++) {
       char c = buffer[i];
       if ((c < '0') || (c > '9')) {
-- 
2.43.0


From 0909509a52b2c818c9e3de38282053a7f785f723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:31 +0000
Subject: [PATCH 27/81] fix: ceil/floor were wrong near integers and undefined
 outside the int range

---
 include/nanomath.h | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 8d23def..8682eee 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -103,35 +103,27 @@ static inline T fabs(T num) {
 }
 
 // https://stackoverflow.com/questions/8377412/ceil-function-how-can-we-implement-it-ourselves
-// FIXME(LTE): Won't work for large float value.
 template <typename T>
 static inline T ceil(T num) {
-  int inum = int(num);
-  T diff = num - static_cast<T>(inum);
-  if (fabs(diff) < nanostl::numeric_limits<T>::epsilon()) {
-    return inum;
+  // Values this large have no fractional part. Also true for inf and NaN.
+  if (!(fabs(num) < static_cast<T>(4503599627370496.0))) {  // 2^52
+    return num;
   }
 
-  if (num > static_cast<T>(0)) {
-    return inum + 1;
-  } else {
-    return inum;
-  }
+  T inum = static_cast<T>(static_cast<long long>(num));
+  return (inum < num) ? inum + static_cast<T>(1) : inum;
 }
 
 // https://stackoverflow.com/questions/5122993/floor-int-function-implementaton
 template <typename T>
 static inline T floor(T x) {
-  if (x >= static_cast<T>(0)) {
-    return int(x);
-  } else {
-    int y = int(x);
-    if (fabs(static_cast<T>(y) - x) < nanostl::numeric_limits<T>::epsilon()) {
-      return y;
-    } else {
-      return y - 1;
-    }
+  // Values this large have no fractional part. Also true for inf and NaN.
+  if (!(fabs(x) < static_cast<T>(4503599627370496.0))) {  // 2^52
+    return x;
   }
+
+  T y = static_cast<T>(static_cast<long long>(x));
+  return (y > x) ? y - static_cast<T>(1) : y;
 }
 
 static inline bool isfinite(float x) {
-- 
2.43.0


From c70454786d602b1c0c2731f5992f6d1f10fb2a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:33 +0000
Subject: [PATCH 28/81] fix: pow and cbrt returned 0 for every |x| below
 epsilon

---
 include/nanomath.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 8682eee..3359fac 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -503,10 +503,8 @@ static inline float log10(const float& x) {
 
 // fast_safe_pow
 static inline float pow(float x, float y) {
-  if (fabs(y) < nanostl::numeric_limits<float>::epsilon())
-    return 1.0f;  // x^0=1
-  if (fabs(x) < nanostl::numeric_limits<float>::epsilon())
-    return 0.0f;  // 0^y=0
+  if (__is_zero(y)) return 1.0f;  // x^0=1
+  if (__is_zero(x)) return 0.0f;  // 0^y=0
   // be cheap & exact for special case of squaring and identity
   if (y == 1.0f) return x;
   if (y == 2.0f) {
@@ -682,8 +680,7 @@ static inline float cbrt(float x) {
   // 12 max ulp
   a = 0.333333333f * (2.0f * a + x0 / (a * a));  // Newton step.
   a = 0.333333333f * (2.0f * a + x0 / (a * a));  // Newton step again.
-  a = (fabs(x0) < nanostl::numeric_limits<float>::epsilon()) ? 0
-                                                             : a;  // Fix 0 case
+  a = __is_zero(x0) ? 0 : a;  // Fix 0 case
   return copysign(a, x);
 }
 
-- 
2.43.0


From 29950482f6b7c22592ce21815118f88ee29cb79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:35 +0000
Subject: [PATCH 29/81] fix: sqrt(+inf) was -inf (the test for infinity had the
 wrong sign)

---
 include/nanomath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 3359fac..6da7360 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -295,8 +295,8 @@ static inline float sqrt(const float x) {
     return 1.0f;               // +0
   }
 
-  // -inf
-  if ((x < 0.0f) && nanostl::isinf(x)) {
+  // +inf
+  if ((x > 0.0f) && nanostl::isinf(x)) {
     return x;
   }
 
-- 
2.43.0


From d89d9eb5f88c9a28dfa65498d0fcfd670e4f6c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:37 +0000
Subject: [PATCH 30/81] fix: log/log10 of a negative number returned +infinity
 instead of NaN

---
 include/nanomath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 6da7360..29c3436 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -471,7 +471,7 @@ static inline float log(const float& x) {
   }
 
   if (x < 0.0f) {
-    return nanostl::numeric_limits<float>::infinity();
+    return nanostl::numeric_limits<float>::quiet_NaN();
   }
 
   // Examined 2130706432 values of logf on [1.17549435e-38,3.40282347e+38]:
@@ -493,7 +493,7 @@ static inline float log10(const float& x) {
   }
 
   if (x < 0.0f) {
-    return nanostl::numeric_limits<float>::infinity();
+    return nanostl::numeric_limits<float>::quiet_NaN();
   }
 
   // Examined 2130706432 values of log10f on [1.17549435e-38,3.40282347e+38]:
-- 
2.43.0


From dfdde5bd933f40612db73d9286756cc75fc3695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:38 +0000
Subject: [PATCH 31/81] fix: pow shifted bits out of a signed int for odd
 powers of negative numbers

---
 include/nanomath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 29c3436..fcecffd 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -522,7 +522,7 @@ static inline float pow(float x, float y) {
       int k = (ybits >> 23) - 127;   // get exponent
       int j = ybits >> (23 - k);     // shift out possible fractional bits
       if ((j << (23 - k)) == ybits)  // rebuild number and check for a match
-        sign = IntToFloat(0x3f800000 | (j << 31));  // +1 for even, -1 for odd
+        sign = UintToFloat(0x3f800000u | (static_cast<unsigned int>(j) << 31));  // +1 for even, -1 for odd
       else
         return 0.0f;  // not integer
     } else {
-- 
2.43.0


From 395f26ab2bb5f3cda07d5f310fa53862cc6ba6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:10 +0000
Subject: [PATCH 32/81] fix: fast_float did not compile (std::errc assigned to
 nanostl::errc)

---
 include/fast_float/parse_number.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fast_float/parse_number.h b/include/fast_float/parse_number.h
index 62ae3b0..6ae5494 100644
--- a/include/fast_float/parse_number.h
+++ b/include/fast_float/parse_number.h
@@ -23,7 +23,7 @@ template <typename T>
 from_chars_result parse_infnan(const char *first, const char *last, T &value)  noexcept  {
   from_chars_result answer;
   answer.ptr = first;
-  answer.ec = std::errc(); // be optimistic
+  answer.ec = nanostl::errc(); // be optimistic
   bool minusSign = false;
   if (*first == '-') { // assume first < last, so dereference without checks; C++17 20.19.3.(7.1) explicitly forbids '+' here
       minusSign = true;
@@ -56,7 +56,7 @@ from_chars_result parse_infnan(const char *first, const char *last, T &value)  n
       return answer;
     }
   }
-  answer.ec = std::errc::invalid_argument;
+  answer.ec = nanostl::errc::invalid_argument;
   return answer;
 }
 
@@ -77,7 +77,7 @@ from_chars_result from_chars_advanced(const char *first, const char *last,
 
   from_chars_result answer;
   if (first == last) {
-    answer.ec = std::errc::invalid_argument;
+    answer.ec = nanostl::errc::invalid_argument;
     answer.ptr = first;
     return answer;
   }
@@ -85,7 +85,7 @@ from_chars_result from_chars_advanced(const char *first, const char *last,
   if (!pns.valid) {
     return detail::parse_infnan(first, last, value);
   }
-  answer.ec = std::errc(); // be optimistic
+  answer.ec = nanostl::errc(); // be optimistic
   answer.ptr = pns.lastmatch;
   // Next is Clinger's fast path.
   if (binary_format<T>::min_exponent_fast_path() <= pns.exponent && pns.exponent <= binary_format<T>::max_exponent_fast_path() && pns.mantissa <=binary_format<T>::max_mantissa_fast_path() && !pns.too_many_digits) {
-- 
2.43.0


From d29a883cc17a2204e88b5d85d14fca31ae1a010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:45 +0000
Subject: [PATCH 33/81] fix: thread_destroy after thread_join joined the
 pthread a second time

---
 src/libs_thread.h | 37 +++++++++++++++++++++++++++++--------
 src/nanothread.cc |  1 +
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 56e28e1..3c53355 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -615,8 +615,17 @@ struct thread_queue_t
 #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
     #include <pthread.h>
+    #include <stdlib.h>
     #include <sys/time.h>
 
+    // What a `thread_ptr_t` points to. A pthread can be joined only once, but both thread_join and thread_destroy join.
+    struct thread_internal_thread_t
+        {
+        pthread_t thread;
+        int joined;
+        void* retval;
+        };
+
 #else
     #error Unknown platform.
 #endif
@@ -706,15 +715,22 @@ thread_ptr_t thread_create( int (*thread_proc)( void* ), void* user_data, char c
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        pthread_t thread;
-        if( 0 != pthread_create( &thread, NULL, ( void* (*)( void * ) ) thread_proc, user_data ) )
+        struct thread_internal_thread_t* internal =
+            (struct thread_internal_thread_t*) malloc( sizeof( struct thread_internal_thread_t ) );
+        if( !internal ) return NULL;
+        internal->joined = 0;
+        internal->retval = NULL;
+        if( 0 != pthread_create( &internal->thread, NULL, ( void* (*)( void * ) ) thread_proc, user_data ) )
+            {
+            free( internal );
             return NULL;
+            }
 
         #if !defined( __APPLE__ ) // max doesn't support pthread_setname_np. alternatives?
-            if( name ) pthread_setname_np( thread, name );
+            if( name ) pthread_setname_np( internal->thread, name );
         #endif
 
-        return (thread_ptr_t) thread;
+        return (thread_ptr_t) internal;
 
     #else
         #error Unknown platform.
@@ -731,7 +747,8 @@ void thread_destroy( thread_ptr_t thread )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        pthread_join( (pthread_t) thread, NULL );
+        thread_join( thread );
+        free( thread );
 
     #else
         #error Unknown platform.
@@ -750,9 +767,13 @@ int thread_join( thread_ptr_t thread )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        void* retval;
-        pthread_join( (pthread_t) thread, &retval );
-        return (int)(uintptr_t) retval;
+        struct thread_internal_thread_t* internal = (struct thread_internal_thread_t*) thread;
+        if( !internal->joined )
+            {
+            pthread_join( internal->thread, &internal->retval );
+            internal->joined = 1;
+            }
+        return (int)(uintptr_t) internal->retval;
 
     #else
         #error Unknown platform.
diff --git a/src/nanothread.cc b/src/nanothread.cc
index 188d85e..a9930aa 100644
--- a/src/nanothread.cc
+++ b/src/nanothread.cc
@@ -40,6 +40,7 @@ void thread::join() {
   if (thread_handle_) {
     thread_ptr_t th = static_cast<thread_ptr_t>(thread_handle_);
     thread_join(th);
+    thread_destroy(th);
 
     thread_handle_ = nullptr;
   }
-- 
2.43.0


From b7e842f00df2270c656d483a6fc11a23455a8f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:12 +0000
Subject: [PATCH 34/81] fix: thread_create ignored stack_size on Linux/macOS

---
 src/libs_thread.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 3c53355..1c3e618 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -614,9 +614,11 @@ struct thread_queue_t
 
 #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
+    #include <limits.h>
     #include <pthread.h>
     #include <stdlib.h>
     #include <sys/time.h>
+    #include <unistd.h>
 
     // What a `thread_ptr_t` points to. A pthread can be joined only once, but both thread_join and thread_destroy join.
     struct thread_internal_thread_t
@@ -720,7 +722,21 @@ thread_ptr_t thread_create( int (*thread_proc)( void* ), void* user_data, char c
         if( !internal ) return NULL;
         internal->joined = 0;
         internal->retval = NULL;
-        if( 0 != pthread_create( &internal->thread, NULL, ( void* (*)( void * ) ) thread_proc, user_data ) )
+
+        pthread_attr_t attr;
+        pthread_attr_init( &attr );
+        if( stack_size > 0 )
+            {
+            size_t size = (size_t) stack_size;
+            #if defined( PTHREAD_STACK_MIN )
+                if( size < (size_t) PTHREAD_STACK_MIN ) size = (size_t) PTHREAD_STACK_MIN;
+            #endif
+            size_t page = (size_t) sysconf( _SC_PAGESIZE );
+            pthread_attr_setstacksize( &attr, ( size + page - 1 ) / page * page );
+            }
+        int result = pthread_create( &internal->thread, &attr, ( void* (*)( void * ) ) thread_proc, user_data );
+        pthread_attr_destroy( &attr );
+        if( 0 != result )
             {
             free( internal );
             return NULL;
-- 
2.43.0


From 51de7ba514bc21413fcd285a133997ba3d29dd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:45 +0000
Subject: [PATCH 35/81] fix: nullptr was redefined as a macro that only worked
 inside of namespace nanostl

---
 include/__nullptr | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/__nullptr b/include/__nullptr
index cf26ce7..ad15096 100644
--- a/include/__nullptr
+++ b/include/__nullptr
@@ -12,6 +12,17 @@
 
 //#include <__config>
 
+#if __cplusplus >= 201103L || defined(_MSC_VER)
+
+namespace nanostl {
+
+// `nullptr` is a keyword. Redefining it would break its use outside of this namespace.
+typedef decltype(nullptr) nullptr_t;
+
+}
+
+#else
+
 namespace nanostl {
 
 struct nullptr_t
@@ -44,4 +55,6 @@ inline constexpr nullptr_t __get_nullptr_t() {return nullptr_t(0);}
 
 }
 
+#endif
+
 #endif  // NANOSTL__NULLPTR
-- 
2.43.0


From 34602db80853c8dc36c435ff0ce4b54d1b39a042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:42 +0000
Subject: [PATCH 36/81] fix: nanofunctional/nanomemory/nanoratio/nanoatomic did
 not compile when included first

---
 include/nanoatomic.h     | 2 +-
 include/nanofunctional.h | 1 +
 include/nanomemory.h     | 1 +
 include/nanoratio.h      | 1 +
 4 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nanoatomic.h b/include/nanoatomic.h
index 8b606e9..e4a4a96 100644
--- a/include/nanoatomic.h
+++ b/include/nanoatomic.h
@@ -30,7 +30,7 @@
 namespace nanostl {
 
 template<class T>
-struct atomic
+struct atomic;
 
 } // namespace nanostl
 
diff --git a/include/nanofunctional.h b/include/nanofunctional.h
index aae9c32..f1eca8f 100644
--- a/include/nanofunctional.h
+++ b/include/nanofunctional.h
@@ -30,6 +30,7 @@
 #endif
 
 #include "__hashfunc.h"
+#include "nanotype_traits.h"
 #include "__nullptr"
 
 namespace nanostl {
diff --git a/include/nanomemory.h b/include/nanomemory.h
index 0bf553d..2c5c458 100644
--- a/include/nanomemory.h
+++ b/include/nanomemory.h
@@ -11,6 +11,7 @@
 #include "nanotype_traits.h"
 #include "nanocommon.h"
 #include "nanofunctional.h"
+#include "nanoutility.h"
 
 #include "__nullptr"
 
diff --git a/include/nanoratio.h b/include/nanoratio.h
index 260acf4..e07e086 100644
--- a/include/nanoratio.h
+++ b/include/nanoratio.h
@@ -26,6 +26,7 @@
 #define NANOSTL_RATIO_H_
 
 #include "nanocommon.h"
+#include "nanocstdint.h"
 
 namespace nanostl {
 
-- 
2.43.0


From 2fb2a0e1e75e7d4f95060d8b2343e276a81ff557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:45 +0000
Subject: [PATCH 37/81] fix: is_nothrow_* were false for every type because
 declval was not noexcept

---
 include/nanotype_traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index e80dde9..a74d2ca 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -472,7 +472,7 @@ template <class _Tp> _Tp   __declval(long);
 
 template <class _Tp>
 decltype(__declval<_Tp>(0))
-declval() __NANOSTL_NOEXCEPT;
+declval() noexcept;
 
 
 
-- 
2.43.0


From c58d82622308c856961f15c29428e840d72225fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:29 +0000
Subject: [PATCH 38/81] fix: is_integral (and is_enum) were wrong for char16_t
 and char32_t

---
 include/nanocstddef.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/nanocstddef.h b/include/nanocstddef.h
index 6fa0d12..f209330 100644
--- a/include/nanocstddef.h
+++ b/include/nanocstddef.h
@@ -38,10 +38,8 @@ template <>          struct __libcpp_is_integral<wchar_t>            { enum { va
 //#ifndef _LIBCPP_HAS_NO_CHAR8_T
 //template <>          struct __libcpp_is_integral<char8_t>            { enum { value = 1 }; };
 //#endif
-//#ifndef _LIBCPP_HAS_NO_UNICODE_CHARS
-//template <>          struct __libcpp_is_integral<char16_t>           { enum { value = 1 }; };
-//template <>          struct __libcpp_is_integral<char32_t>           { enum { value = 1 }; };
-//#endif
+template <>          struct __libcpp_is_integral<char16_t>           { enum { value = 1 }; };
+template <>          struct __libcpp_is_integral<char32_t>           { enum { value = 1 }; };
 template <>          struct __libcpp_is_integral<short>              { enum { value = 1 }; };
 template <>          struct __libcpp_is_integral<unsigned short>     { enum { value = 1 }; };
 template <>          struct __libcpp_is_integral<int>                { enum { value = 1 }; };
-- 
2.43.0


From 99e2dd0941f335215e2802d1ed121caaf9e6c711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:41 +0000
Subject: [PATCH 39/81] fix: nanostl::swap was declared but never defined

---
 include/nanotype_traits.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index a74d2ca..7d0d152 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -1184,14 +1184,24 @@ template <class _Tp>
 inline /*_LIBCPP_INLINE_VISIBILITY*/
 /*_LIBCPP_CONSTEXPR_AFTER_CXX17*/ __swap_result_t<_Tp>
 swap(_Tp& __x, _Tp& __y) __NANOSTL_NOEXCEPT_(is_nothrow_move_constructible<_Tp>::value &&
-                                    is_nothrow_move_assignable<_Tp>::value);
+                                    is_nothrow_move_assignable<_Tp>::value)
+{
+  _Tp __t(static_cast<_Tp&&>(__x));
+  __x = static_cast<_Tp&&>(__y);
+  __y = static_cast<_Tp&&>(__t);
+}
 
 template<class _Tp, size_t _Np>
 inline /*_LIBCPP_INLINE_VISIBILITY*/ /*_LIBCPP_CONSTEXPR_AFTER_CXX17*/
 typename enable_if<
     __is_swappable<_Tp>::value
 >::type
-swap(_Tp (&__a)[_Np], _Tp (&__b)[_Np]) __NANOSTL_NOEXCEPT_(__is_nothrow_swappable<_Tp>::value);
+swap(_Tp (&__a)[_Np], _Tp (&__b)[_Np]) __NANOSTL_NOEXCEPT_(__is_nothrow_swappable<_Tp>::value)
+{
+  for (size_t __i = 0; __i < _Np; __i++) {
+    swap(__a[__i], __b[__i]);
+  }
+}
 
 
 namespace __detail
-- 
2.43.0


From ad02dee07aabd88b73b56ab98f709e016ca62cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:41 +0000
Subject: [PATCH 40/81] fix: nanooptional.h did not compile with g++ (extra
 qualification of hash)

---
 include/nonstd/optional.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nonstd/optional.hpp b/include/nonstd/optional.hpp
index 3c54fef..5145372 100644
--- a/include/nonstd/optional.hpp
+++ b/include/nonstd/optional.hpp
@@ -1788,7 +1788,7 @@ using optional_lite::make_optional;
 namespace nanostl {
 
 template< class T >
-struct nanostl::hash< nonstd::optional<T> >
+struct hash< nonstd::optional<T> >
 {
 public:
     nanostl::size_t operator()( nonstd::optional<T> const & v ) const optional_noexcept
-- 
2.43.0


From c69caca1704d5157291be4304f80a6cdf5030c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:43 +0000
Subject: [PATCH 41/81] fix: nanooptional.h and nanovariant.h did not compile
 as C++17

---
 include/nonstd/optional.hpp | 2 +-
 include/nonstd/variant.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nonstd/optional.hpp b/include/nonstd/optional.hpp
index 5145372..6806b7f 100644
--- a/include/nonstd/optional.hpp
+++ b/include/nonstd/optional.hpp
@@ -76,7 +76,7 @@
 #define optional_CPP11_OR_GREATER  ( optional_CPLUSPLUS >= 201103L )
 #define optional_CPP11_OR_GREATER_ ( optional_CPLUSPLUS >= 201103L )
 #define optional_CPP14_OR_GREATER  ( optional_CPLUSPLUS >= 201402L )
-#define optional_CPP17_OR_GREATER  ( optional_CPLUSPLUS >= 201703L )
+#define optional_CPP17_OR_GREATER  0  // nanostl has none of the C++17 library that would be used instead
 #define optional_CPP20_OR_GREATER  ( optional_CPLUSPLUS >= 202000L )
 
 // C++ language version (represent 98 as 3):
diff --git a/include/nonstd/variant.hpp b/include/nonstd/variant.hpp
index 1920bc7..1780352 100644
--- a/include/nonstd/variant.hpp
+++ b/include/nonstd/variant.hpp
@@ -67,7 +67,7 @@
 #define variant_CPP11_OR_GREATER  ( variant_CPLUSPLUS >= 201103L )
 #define variant_CPP11_OR_GREATER_ ( variant_CPLUSPLUS >= 201103L )
 #define variant_CPP14_OR_GREATER  ( variant_CPLUSPLUS >= 201402L )
-#define variant_CPP17_OR_GREATER  ( variant_CPLUSPLUS >= 201703L )
+#define variant_CPP17_OR_GREATER  0  // nanostl has none of the C++17 library that would be used instead
 #define variant_CPP20_OR_GREATER  ( variant_CPLUSPLUS >= 202000L )
 
 // Use C++17 std::variant if available and requested:
-- 
2.43.0


From 497dac9e7cb84fe0995d2ea84087a2bb07ce7f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:44 +0000
Subject: [PATCH 42/81] fix: nanotuple.h did not compile as C++14 or later next
 to the standard headers

---
 include/tao/seq/config.hpp | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/include/tao/seq/config.hpp b/include/tao/seq/config.hpp
index 8ccddd7..2d08374 100644
--- a/include/tao/seq/config.hpp
+++ b/include/tao/seq/config.hpp
@@ -6,27 +6,8 @@
 
 //#include <utility>
 
-#ifndef TAO_SEQ_USE_STD_INTEGER_SEQUENCE
-#if defined( __cpp_lib_integer_sequence )
-#define TAO_SEQ_USE_STD_INTEGER_SEQUENCE
-#elif defined( _LIBCPP_VERSION ) && ( __cplusplus >= 201402L )
-#define TAO_SEQ_USE_STD_INTEGER_SEQUENCE
-#elif defined( _MSC_VER )
-// Disabled for nanostl
-//#define TAO_SEQ_USE_STD_INTEGER_SEQUENCE
-#endif
-#endif
-
-#ifndef TAO_SEQ_USE_STD_MAKE_INTEGER_SEQUENCE
-#if defined( _GLIBCXX_RELEASE ) && ( _GLIBCXX_RELEASE >= 8 ) && ( __cplusplus >= 201402L )
-#define TAO_SEQ_USE_STD_MAKE_INTEGER_SEQUENCE
-#elif defined( _LIBCPP_VERSION ) && ( __cplusplus >= 201402L )
-#define TAO_SEQ_USE_STD_MAKE_INTEGER_SEQUENCE
-#elif defined( _MSC_VER ) && ( _MSC_FULL_VER >= 190023918 )
-// Disabled for nanostl
-//#define TAO_SEQ_USE_STD_MAKE_INTEGER_SEQUENCE
-#endif
-#endif
+// TAO_SEQ_USE_STD_INTEGER_SEQUENCE and TAO_SEQ_USE_STD_MAKE_INTEGER_SEQUENCE are never defined:
+// there is no integer_sequence in nanostl.
 
 #if defined( __cpp_fold_expressions ) && ( !defined( __GNUC__ ) || ( __GNUC__ >= 8 ) )
 #define TAO_SEQ_FOLD_EXPRESSIONS
-- 
2.43.0


From c5a151463caeb4b131bf5ed052686a14659058a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:55 +0000
Subject: [PATCH 43/81] fix: nanosystem_error.h hid the system's <errno.h> with
 g++

---
 include/nanosystem_error.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanosystem_error.h b/include/nanosystem_error.h
index 7aeeb22..8137f38 100644
--- a/include/nanosystem_error.h
+++ b/include/nanosystem_error.h
@@ -30,7 +30,7 @@
 //#include "nanostring.h"
 //#include "nanocstdint.h"
 
-#include "errno.h"
+#include <errno.h>  // not "errno.h": include_next would not get past our own with g++
 
 namespace nanostl {
 
-- 
2.43.0


From 9b411718ced1baf71e9469b49592d03f97aa1db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:37 +0000
Subject: [PATCH 44/81] fix: nanoiostream.h implementation did not compile with
 g++

---
 include/nanoiostream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanoiostream.h b/include/nanoiostream.h
index 6425673..4168770 100644
--- a/include/nanoiostream.h
+++ b/include/nanoiostream.h
@@ -221,7 +221,7 @@ namespace nanostl {
 
 #ifndef NANOSTL_NO_IO
 
-#if __has_feature(cxx_alignas)
+#if defined(__cplusplus) && (__cplusplus >= 201103L)  // g++ has no __has_feature
 #define _ALIGNAS_TYPE(x) alignas(x)
 #define _ALIGNAS(x) alignas(x)
 #else
-- 
2.43.0


From 6cb9a77355d72d11c651b4b007b4f8f6ff378468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:21:42 +0000
Subject: [PATCH 45/81] fix: nanooptional.h and nanovariant.h used placement
 new without declaring it

---
 include/nonstd/optional.hpp | 6 ++++++
 include/nonstd/variant.hpp  | 6 +++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/nonstd/optional.hpp b/include/nonstd/optional.hpp
index 6806b7f..ce1ce6f 100644
--- a/include/nonstd/optional.hpp
+++ b/include/nonstd/optional.hpp
@@ -418,6 +418,12 @@ namespace nonstd {
 
 // additional includes:
 
+#ifdef __has_include
+# if __has_include(<new>)
+#  include <new>     // placement new
+# endif
+#endif
+
 #if optional_CONFIG_NO_EXCEPTIONS
 // already included: <cassert>
 #else
diff --git a/include/nonstd/variant.hpp b/include/nonstd/variant.hpp
index 1780352..2e1aab3 100644
--- a/include/nonstd/variant.hpp
+++ b/include/nonstd/variant.hpp
@@ -220,7 +220,11 @@ namespace nonstd {
 
 //#include <cstddef>
 //#include <limits>
-//#include <new>
+#ifdef __has_include
+# if __has_include(<new>)
+#  include <new>     // placement new
+# endif
+#endif
 //#include <utility>
 #include <nanolimits.h>
 #include <nanoutility.h>
-- 
2.43.0


From 6b3f4a678a44ba39146fe8b222b40158198e19a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:53 +0000
Subject: [PATCH 46/81] fix: optional's assignments terminated when a copy or a
 move threw

---
 include/nonstd/optional.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/nonstd/optional.hpp b/include/nonstd/optional.hpp
index ce1ce6f..0b9715f 100644
--- a/include/nonstd/optional.hpp
+++ b/include/nonstd/optional.hpp
@@ -1201,10 +1201,6 @@ public:
 //      && nanostl::is_copy_assignable<T>::value
     )
     operator=( optional const & other )
-        noexcept(
-            std11::is_nothrow_move_assignable<T>::value
-            && std11::is_nothrow_move_constructible<T>::value
-        )
 #else
     optional & operator=( optional const & other )
 #endif
@@ -1225,7 +1221,11 @@ public:
 //      std11::is_move_constructible<T>::value
 //      && nanostl::is_move_assignable<T>::value
     )
-    operator=( optional && other ) noexcept
+    operator=( optional && other )
+        noexcept(
+            std11::is_nothrow_move_assignable<T>::value
+            && std11::is_nothrow_move_constructible<T>::value
+        )
     {
         if      ( (has_value() == true ) && (other.has_value() == false) ) { reset(); }
         else if ( (has_value() == false) && (other.has_value() == true ) ) { initialize( nanostl::move( *other ) ); }
-- 
2.43.0


From 90fa6b77bc12aafc3238fa70140771e4c6c18cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:31 +0000
Subject: [PATCH 47/81] fix: let the dummy typeinfo header pass on the one of
 the standard library

With -I include, the dummy hid the standard <typeinfo>, and <memory>, <functional>, <any> or
typeid no longer compiled next to the library.
---
 include/typeinfo | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/typeinfo b/include/typeinfo
index 909c62a..1e9be6c 100644
--- a/include/typeinfo
+++ b/include/typeinfo
@@ -1,3 +1,10 @@
 #pragma once
 
 // dummy header
+// This directory may come before the one of the standard library: leave its header visible.
+#ifdef __has_include_next
+#if __has_include_next(<typeinfo>)
+#pragma GCC system_header
+#include_next <typeinfo>
+#endif
+#endif
-- 
2.43.0


From fb9c9eaecad415d9494dfdd2babdcde538ef1755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:12:59 +0000
Subject: [PATCH 48/81] fix: move_if_noexcept was ambiguous for types of the
 standard library

---
 include/nanoutility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanoutility.h b/include/nanoutility.h
index 67935eb..2427ccc 100644
--- a/include/nanoutility.h
+++ b/include/nanoutility.h
@@ -103,7 +103,7 @@ using __move_if_noexcept_result_t = const _Tp&;
 template <class _Tp>
 /*_LIBCPP_NODISCARD_EXT*/ inline /*_LIBCPP_INLINE_VISIBILITY*/ constexpr __move_if_noexcept_result_t<_Tp>
 move_if_noexcept(_Tp& __x) __NANOSTL_NOEXCEPT {
-  return move(__x);
+  return nanostl::move(__x);
 }
 
 
-- 
2.43.0


From dc1ab92b0bd1c2da78b59d669068ccb423f1e457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:13:02 +0000
Subject: [PATCH 49/81] fix: swapping unique_ptrs to types of the standard
 library was ambiguous

---
 include/nanomemory.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/nanomemory.h b/include/nanomemory.h
index 2c5c458..a19bb97 100644
--- a/include/nanomemory.h
+++ b/include/nanomemory.h
@@ -368,9 +368,8 @@ public:
     __NANOSTL_NOEXCEPT_(__is_nothrow_swappable<_T1>::value &&
                __is_nothrow_swappable<_T2>::value)
   {
-    using _VNANOSTL::swap;
-    swap(first(), __x.first());
-    swap(second(), __x.second());
+    _VNANOSTL::swap(first(), __x.first());
+    _VNANOSTL::swap(second(), __x.second());
   }
 };
 
-- 
2.43.0


From d7a53e4879797466906e0be6cb2d9bff3782c12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:19:31 +0000
Subject: [PATCH 50/81] fix: maps shared one random generator without
 synchronization

Inserting in two different maps from two threads was a data race. Each map now has the state of
its own generator.
---
 include/nanomap.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index 596dfdf..15e0a24 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -48,8 +48,8 @@ namespace nanostl {
 typedef unsigned int priority_type;
 
 // https://ja.wikipedia.org/wiki/Xorshift
-static inline priority_type priority_rand() {
-  static priority_type y = 2463534242;
+// y: the state, which each map has for itself
+static inline priority_type priority_rand(priority_type& y) {
   y = y ^ (y << 13);
   y = y ^ (y >> 17);
   return y = y ^ (y << 5);
@@ -70,7 +70,7 @@ class map {
     value_type val;
     priority_type pri;
     Node* ch[2];  // left, right
-    Node(value_type v) : val(v), pri(priority_rand()) { ch[0] = ch[1] = 0; }
+    Node(value_type v) : val(v), pri(0) { ch[0] = ch[1] = 0; }
     inline Key key() { return val.first; }
     inline T mapped() { return val.second; }
   };
@@ -113,10 +113,10 @@ class map {
   typedef const iterator const_iterator;
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  map() { root = 0; }
+  map() : pri_state(2463534242) { root = 0; }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  map(const map& rhs) { root = __copy(rhs.root); }
+  map(const map& rhs) : pri_state(rhs.pri_state) { root = __copy(rhs.root); }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   map& operator=(const map& rhs) {
@@ -124,6 +124,7 @@ class map {
       Node* t = __copy(rhs.root);
       __delete(root);
       root = t;
+      pri_state = rhs.pri_state;
     }
     return *this;
   }
@@ -189,6 +190,7 @@ class map {
 
  private:
   Node* root;
+  priority_type pri_state;
 
   // There is no read-only iterator class, also the const members give `iterator`.
   NANOSTL_HOST_AND_DEVICE_QUAL
@@ -211,6 +213,7 @@ class map {
   pair<Node*, pair_iterator_bool> __insert(Node* t, const value_type& x) {
     if (!t) {
       Node* n = new Node(x);
+      n->pri = priority_rand(pri_state);
       return make_pair(n, make_pair(iterator(this, n), true));
     }
     Key key = x.first;
-- 
2.43.0


From 355000c56d9f9600d8e36b074d9a8293494d28c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:18:56 +0000
Subject: [PATCH 51/81] fix: fill with an execution policy was ambiguous for
 ranges of the standard library

fill(policy, first, last, value) called fill without its namespace, and
argument-dependent lookup also finds std::fill when the elements or the
iterators are of namespace std.
---
 include/nanoalgorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanoalgorithm.h b/include/nanoalgorithm.h
index bd7fc77..3009131 100644
--- a/include/nanoalgorithm.h
+++ b/include/nanoalgorithm.h
@@ -64,7 +64,7 @@ void fill(ExecutionPolicy&& exec, ForwardIterator first, ForwardIterator last,
   // TODO: Implement
   (void)exec;
 
-  fill(first, last, value);
+  nanostl::fill(first, last, value);
   }
 #endif
 
-- 
2.43.0


From ff371f000421ebc9b087129c8eebdc4d17a37e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:36:20 +0000
Subject: [PATCH 52/81] fix: generateSingleHeader.py dropped the code that
 follows a comment at the start of a line

---
 scripts/generateSingleHeader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/generateSingleHeader.py b/scripts/generateSingleHeader.py
index f795152..8e287b3 100755
--- a/scripts/generateSingleHeader.py
+++ b/scripts/generateSingleHeader.py
@@ -21,7 +21,7 @@ def generate(v):
     ifParser = re.compile( r'\s*#ifndef NANOSTL_.*_H_')
     endIfParser = re.compile( r'\s*#endif // NANOSTL_.*_H_')
     ifImplParser = re.compile( r'\s*#ifdef NANOSTL_CONFIG_RUNNER' )
-    commentParser1 = re.compile( r'^\s*/\*')
+    commentParser1 = re.compile( r'^\s*/\*(?!.*\*/\s*\S)')
     commentParser2 = re.compile( r'^ \*')
     blankParser = re.compile( r'^\s*$')
     seenHeaders = set([])
-- 
2.43.0


From 9fd47864771964bd41870caf139fefb0c9755891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:39:43 +0000
Subject: [PATCH 53/81] fix: generateSingleHeader.py took code that starts with
 an asterisk for a comment, and text of a comment for code

---
 scripts/generateSingleHeader.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/scripts/generateSingleHeader.py b/scripts/generateSingleHeader.py
index 8e287b3..dacec09 100755
--- a/scripts/generateSingleHeader.py
+++ b/scripts/generateSingleHeader.py
@@ -21,8 +21,7 @@ def generate(v):
     ifParser = re.compile( r'\s*#ifndef NANOSTL_.*_H_')
     endIfParser = re.compile( r'\s*#endif // NANOSTL_.*_H_')
     ifImplParser = re.compile( r'\s*#ifdef NANOSTL_CONFIG_RUNNER' )
-    commentParser1 = re.compile( r'^\s*/\*(?!.*\*/\s*\S)')
-    commentParser2 = re.compile( r'^ \*')
+    commentParser = re.compile( r'^\s*/\*')
     blankParser = re.compile( r'^\s*$')
     seenHeaders = set([])
     rootPath = os.path.join( basePath, 'include/' )
@@ -53,7 +52,15 @@ def generate(v):
         print('parseFile', path, filename)
         f = open( path + filename, 'r' )
         blanks = 0
+        inComment = False
         for line in f:
+            if inComment or commentParser.match( line ):
+                # drop the comment, keep what follows it
+                end = line.find( "*/", 0 if inComment else line.index( "/*" ) + 2 )
+                inComment = end < 0
+                line = "" if inComment else line[end + 2:]
+                if blankParser.match( line ):
+                    continue
             if ifParser.match( line ):
                 globals['ifdefs'] += 1
             elif endIfParser.match( line ):
@@ -78,7 +85,7 @@ def generate(v):
             else:
                 if ifImplParser.match(line):
                     globals['implIfDefs'] = globals['ifdefs']
-                if (not guardParser.match( line ) or defineParser.match( line ) ) and not commentParser1.match( line )and not commentParser2.match( line ):
+                if not guardParser.match( line ) or defineParser.match( line ):
                     if blankParser.match( line ):
                         blanks = blanks + 1
                     else:
-- 
2.43.0


From 06ab2fdb74396d8f3153d9e88a123338ec85cda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:30:06 +0000
Subject: [PATCH 54/81] fix: stof and stod took the length of the text modulo
 2^32

---
 include/__nanostrutil.h | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/include/__nanostrutil.h b/include/__nanostrutil.h
index 41d5319..5275430 100644
--- a/include/__nanostrutil.h
+++ b/include/__nanostrutil.h
@@ -1357,19 +1357,19 @@ inline float int32Bits2Float(uint32_t bits) {
 }
 
 NANOSTL_HOST_AND_DEVICE_QUAL
-static enum RyuStatus s2f_n(const char * buffer, const int len, float * result) {
+static enum RyuStatus s2f_n(const char * buffer, const long long len, float * result) {
   if (len == 0) {
     return RYU_INPUT_TOO_SHORT;
   }
   int m10digits = 0;
   int e10digits = 0;
-  int dotIndex = len;
-  int eIndex = len;
+  long long dotIndex = len;
+  long long eIndex = len;
   uint32_t m10 = 0;
   int32_t e10 = 0;
   bool signedM = false;
   bool signedE = false;
-  int i = 0;
+  long long i = 0;
   if (buffer[i] == '-') {
     signedM = true;
     i++;
@@ -1430,7 +1430,11 @@ static enum RyuStatus s2f_n(const char * buffer, const int len, float * result)
   if (signedE) {
     e10 = -e10;
   }
-  e10 -= dotIndex < eIndex ? eIndex - dotIndex - 1 : 0;
+  if (dotIndex < eIndex) {
+    // so many digits that it does not fit e10 make the value 0 anyway
+    const long long fraction = eIndex - dotIndex - 1;
+    e10 -= fraction < 1000000 ? static_cast<int32_t>(fraction) : 1000000;
+  }
   if (m10 == 0) {
     *result = signedM ? -0.0f : 0.0f;
     return RYU_SUCCESS;
@@ -1588,19 +1592,19 @@ inline double int64Bits2Double(uint64_t bits) {
 }
 
 NANOSTL_HOST_AND_DEVICE_QUAL
-static enum RyuStatus s2d_n(const char * buffer, const int len, double * result) {
+static enum RyuStatus s2d_n(const char * buffer, const long long len, double * result) {
   if (len == 0) {
     return RYU_INPUT_TOO_SHORT;
   }
   int m10digits = 0;
   int e10digits = 0;
-  int dotIndex = len;
-  int eIndex = len;
+  long long dotIndex = len;
+  long long eIndex = len;
   uint64_t m10 = 0;
   int32_t e10 = 0;
   bool signedM = false;
   bool signedE = false;
-  int i = 0;
+  long long i = 0;
   if (buffer[i] == '-') {
     signedM = true;
     i++;
@@ -1661,7 +1665,11 @@ static enum RyuStatus s2d_n(const char * buffer, const int len, double * result)
   if (signedE) {
     e10 = -e10;
   }
-  e10 -= dotIndex < eIndex ? eIndex - dotIndex - 1 : 0;
+  if (dotIndex < eIndex) {
+    // so many digits that it does not fit e10 make the value 0 anyway
+    const long long fraction = eIndex - dotIndex - 1;
+    e10 -= fraction < 1000000 ? static_cast<int32_t>(fraction) : 1000000;
+  }
   if (m10 == 0) {
     *result = signedM ? -0.0 : 0.0;
     return RYU_SUCCESS;
-- 
2.43.0


From ba91bd04996fcf9e30188d31812885cb46f75b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:30:07 +0000
Subject: [PATCH 55/81] fix: from_chars lost digits of exponents that digits
 before them cancel out

---
 include/fast_float/ascii_number.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fast_float/ascii_number.h b/include/fast_float/ascii_number.h
index a0f6975..9041003 100644
--- a/include/fast_float/ascii_number.h
+++ b/include/fast_float/ascii_number.h
@@ -164,7 +164,7 @@ parsed_number_string parse_number_string(const char *p, const char *pend, parse_
     } else {
       while ((p != pend) && is_integer(*p)) {
         uint8_t digit = uint8_t(*p - '0');
-        if (exp_number < 0x10000000) {
+        if (exp_number < 0x10000000000000) {
           exp_number = 10 * exp_number + digit;
         }
         ++p;
-- 
2.43.0


From 94b2960507cbd649779956c22267cef1a5893942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:23:11 +0000
Subject: [PATCH 56/81] fix: is_union was false for every union, is_class true,
 and is_empty did not compile

---
 include/nanotype_traits.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index 7d0d152..6b672ce 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -792,9 +792,8 @@ struct __is_implicitly_default_constructible<_Tp, decltype(__test_implicit_defau
 
 // is_union
 
-template <class _Tp> struct __libcpp_union : public false_type {};
 template <class _Tp> struct _NANOSTL_TEMPLATE_VIS is_union
-    : public __libcpp_union<typename remove_cv<_Tp>::type> {};
+    : public integral_constant<bool, __is_union(_Tp)> {};
 
 // is_class
 
-- 
2.43.0


From d52ce44db0fc3bfc35bd45d69ac4f555313183a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:23:13 +0000
Subject: [PATCH 57/81] fix: is_enum was true for nullptr_t

---
 include/nanotype_traits.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index 6b672ce..5de75ce 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -1356,6 +1356,7 @@ template <class _Tp> struct _NANOSTL_TEMPLATE_VIS is_enum
                                      !is_pointer<_Tp>::value          &&
                                      !is_reference<_Tp>::value        &&
                                      !is_member_pointer<_Tp>::value   &&
+                                     !__is_nullptr_t<_Tp>::value      &&
                                      !is_union<_Tp>::value            &&
                                      !is_class<_Tp>::value            &&
                                      !is_function<_Tp>::value         > {};
-- 
2.43.0


From 641902e166877c560e296e91521db6e9f7aba0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:23:16 +0000
Subject: [PATCH 58/81] fix: is_default_constructible was false for every array

---
 include/nanotype_traits.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index 5de75ce..742e0da 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -779,6 +779,9 @@ struct __is_implicitly_default_constructible<_Tp, decltype(__test_implicit_defau
    template <class Ref, class Arg> struct is_constructible<Ref&, Arg> : public integral_constant<bool, sizeof(detail::is_constructible_imp::ref_test<Ref&>(declval<Arg>())) == sizeof(yes_type)>{};
    template <class Ref, class Arg> struct is_constructible<Ref&&, Arg> : public integral_constant<bool, sizeof(detail::is_constructible_imp::ref_test<Ref&&>(declval<Arg>())) == sizeof(yes_type)>{};
 
+   // an array is default constructible when its elements are
+   template <class T, size_t N> struct is_constructible<T[N]> : public is_constructible<T>{};
+
    template <> struct is_constructible<void> : public false_type{};
    template <> struct is_constructible<void const> : public false_type{};
    template <> struct is_constructible<void const volatile> : public false_type{};
-- 
2.43.0


From 1ccf1cda0c29c957980e1bbb0228bc2b5714e67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:23:18 +0000
Subject: [PATCH 59/81] fix: is_constructible of a reference from void did not
 compile

---
 include/nanotype_traits.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index 742e0da..e858bad 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -767,8 +767,10 @@ struct __is_implicitly_default_constructible<_Tp, decltype(__test_implicit_defau
          static no_type test1(...);
 
          template <typename T>
-         static yes_type ref_test(T);
-         template <typename T>
+         static void implicit(T);
+         template<typename T, typename Arg, typename = decltype(implicit<T>(declval<Arg>()))>
+         static yes_type ref_test(int);
+         template<typename, typename>
          static no_type ref_test(...);
       };
 
@@ -776,8 +778,8 @@ struct __is_implicitly_default_constructible<_Tp, decltype(__test_implicit_defau
 
    template <class T, class ...Args> struct is_constructible : public integral_constant<bool, sizeof(detail::is_constructible_imp::test<T, Args...>(0)) == sizeof(yes_type)>{};
    template <class T, class Arg> struct is_constructible<T, Arg> : public integral_constant<bool, is_destructible<T>::value && sizeof(detail::is_constructible_imp::test1<T, Arg>(0)) == sizeof(yes_type)>{};
-   template <class Ref, class Arg> struct is_constructible<Ref&, Arg> : public integral_constant<bool, sizeof(detail::is_constructible_imp::ref_test<Ref&>(declval<Arg>())) == sizeof(yes_type)>{};
-   template <class Ref, class Arg> struct is_constructible<Ref&&, Arg> : public integral_constant<bool, sizeof(detail::is_constructible_imp::ref_test<Ref&&>(declval<Arg>())) == sizeof(yes_type)>{};
+   template <class Ref, class Arg> struct is_constructible<Ref&, Arg> : public integral_constant<bool, sizeof(detail::is_constructible_imp::ref_test<Ref&, Arg>(0)) == sizeof(yes_type)>{};
+   template <class Ref, class Arg> struct is_constructible<Ref&&, Arg> : public integral_constant<bool, sizeof(detail::is_constructible_imp::ref_test<Ref&&, Arg>(0)) == sizeof(yes_type)>{};
 
    // an array is default constructible when its elements are
    template <class T, size_t N> struct is_constructible<T[N]> : public is_constructible<T>{};
-- 
2.43.0


From 0ebd27286b9cdf173dddf7c4aa4e0d2aad047698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:23:21 +0000
Subject: [PATCH 60/81] fix: numeric_limits<T>::digits10 was declared but not
 defined

---
 include/nanolimits.h | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/include/nanolimits.h b/include/nanolimits.h
index 02c1461..214bd2e 100644
--- a/include/nanolimits.h
+++ b/include/nanolimits.h
@@ -41,109 +41,109 @@ namespace nanostl {
 template <class T>
 struct numeric_limits;
 
+// In a class template, so that the member can be defined in a header.
+template <int N>
+struct __limits_digits10 {
+  static const int digits10 = N;
+};
+
+template <int N>
+const int __limits_digits10<N>::digits10;
+
 template <>
-struct numeric_limits<bool> {
+struct numeric_limits<bool> : public __limits_digits10<0> {
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline bool min(void) { return false; }
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline bool max(void) { return true; }
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline bool epsilon(void) { return false; }
-  static const int digits10 = 0;
 };
 
 template <>
-struct numeric_limits<char> {
+struct numeric_limits<char> : public __limits_digits10<2> {
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline char min(void) { return -128; }
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline char max(void) { return 127; }
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline char epsilon(void) { return 0; }
-  static const int digits10 = 2;
 };
 
 template <>
-struct numeric_limits<unsigned char> {
+struct numeric_limits<unsigned char> : public __limits_digits10<2> {
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline unsigned char min(void) { return 0; }
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline unsigned char max(void) { return 255; }
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline unsigned char epsilon(void) { return 0; }
-  static const int digits10 = 2;
 };
 
 template <>
-struct numeric_limits<short> {
+struct numeric_limits<short> : public __limits_digits10<4> {
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline short min(void) { return -32768; }
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline short max(void) { return 32767; }
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline short epsilon(void) { return 0; }
-  static const int digits10 = 4;
 };
 
 template <>
-struct numeric_limits<unsigned short> {
+struct numeric_limits<unsigned short> : public __limits_digits10<4> {
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline unsigned short min(void) { return 0; }
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline unsigned short max(void) { return 65535; }
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline unsigned short epsilon(void) { return 0; }
-  static const int digits10 = 4;
 };
 
 template <>
-struct numeric_limits<int> {
+struct numeric_limits<int> : public __limits_digits10<9> {
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline int min(void) { return -2147483648; }
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline int max(void) { return 2147483647; }
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline int epsilon(void) { return 0; }
-  static const int digits10 = 9;
 };
 
 template <>
-struct numeric_limits<unsigned int> {
+struct numeric_limits<unsigned int> : public __limits_digits10<9> {
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline unsigned int min(void) { return 0; }
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline unsigned int max(void) { return 0xffffffffU; }
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline unsigned int epsilon(void) { return 0; }
-  static const int digits10 = 9;
 };
 
 // assume int64_t
 template <>
-struct numeric_limits<long long> {
+struct numeric_limits<long long> : public __limits_digits10<18> {
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline long long min(void) { return (-0x7FFFFFFFFFFFFFFFLL - 1LL); }
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline long long max(void) { return 0x7FFFFFFFFFFFFFFFLL; }
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline long long epsilon(void) { return 0; }
-  static const int digits10 = 18;
 };
 
 // assume uint64_t
 template <>
-struct numeric_limits<unsigned long long> {
+struct numeric_limits<unsigned long long> : public __limits_digits10<19> {
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline unsigned long long min(void) { return 0; }
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline unsigned long long max(void) { return 0xFFFFFFFFFFFFFFFFULL; }
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline unsigned long long epsilon(void) { return 0; }
-  static const int digits10 = 19;
 };
 
 template <>
-struct numeric_limits<float> {
+struct numeric_limits<float> : public __limits_digits10<6> {
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline float min(void) { return (1.17549435E-38f); }  // 0x1.0p-126f
   NANOSTL_HOST_AND_DEVICE_QUAL
@@ -192,11 +192,10 @@ struct numeric_limits<float> {
 
     return flt.f;
   }
-  static const int digits10 = 6;
 };
 
 template <>
-struct numeric_limits<double> {
+struct numeric_limits<double> : public __limits_digits10<15> {
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline double min(void) {
     return (2.2250738585072014e-308);
@@ -249,7 +248,6 @@ struct numeric_limits<double> {
 
     return flt.f;
   }
-  static const int digits10 = 15;
 };
 
 }  // namespace nanostl
-- 
2.43.0


From 30d748cfc60965469a330fd98c6b0f4ded68896f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:23:22 +0000
Subject: [PATCH 61/81] fix: num and den of a ratio were declared but not
 defined before C++17

---
 include/nanoratio.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/nanoratio.h b/include/nanoratio.h
index e07e086..f1769ed 100644
--- a/include/nanoratio.h
+++ b/include/nanoratio.h
@@ -94,6 +94,14 @@ class ratio {
 
 };
 
+#if !defined(__cpp_inline_variables)
+template<intmax_t N, intmax_t D>
+constexpr intmax_t ratio<N, D>::num;
+
+template<intmax_t N, intmax_t D>
+constexpr intmax_t ratio<N, D>::den;
+#endif
+
 
 typedef ratio<1LL, 1000000000000000000LL> atto;
 typedef ratio<1LL,    1000000000000000LL> femto;
-- 
2.43.0


From 3cce7f7e9deb95708de71a92300edf9720e5e634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:03:35 +0000
Subject: [PATCH 62/81] fix: max required operator> where the standard's uses
 operator<

---
 include/nanoalgorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanoalgorithm.h b/include/nanoalgorithm.h
index 3009131..4195adb 100644
--- a/include/nanoalgorithm.h
+++ b/include/nanoalgorithm.h
@@ -34,7 +34,7 @@ const T& min(const T& a, const T& b) {
 
 template <class T>
 const T& max(const T& a, const T& b) {
-  return !(b > a) ? a : b;
+  return !(a < b) ? a : b;
 }
 
 template <class ForwardIt>
-- 
2.43.0


From fd6360f58244ccc1e52e11c0914c6b7ed25f14ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:03:38 +0000
Subject: [PATCH 63/81] fix: map required == and > of its keys and disagreed
 with < when they did

---
 include/nanomap.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index 15e0a24..bcc5a92 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -217,10 +217,10 @@ class map {
       return make_pair(n, make_pair(iterator(this, n), true));
     }
     Key key = x.first;
-    if (key == t->key()) {
+    int b = t->key() < key;
+    if (!b && !(key < t->key())) {
       return make_pair(t, make_pair(iterator(this, t), false));
     }
-    int b = key > t->key();
     pair<Node*, pair_iterator_bool> p = __insert(t->ch[b], x);
     t->ch[b] = p.first;
     if (t->pri > t->ch[b]->pri) t = __rotate(t, 1 - b);
@@ -229,7 +229,9 @@ class map {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   Node* __find(Node* t, const key_type& key) const {
-    return (!t || key == t->key()) ? t : __find(t->ch[key > t->key()], key);
+    if (!t) return t;
+    int b = t->key() < key;
+    return (!b && !(key < t->key())) ? t : __find(t->ch[b], key);
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-- 
2.43.0


From 4793cf55556eee4c5ec339f83bd8f47000aa5396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:21:55 +0000
Subject: [PATCH 64/81] fix: optional<const T> did not compile

---
 include/nonstd/optional.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nonstd/optional.hpp b/include/nonstd/optional.hpp
index 0b9715f..1807154 100644
--- a/include/nonstd/optional.hpp
+++ b/include/nonstd/optional.hpp
@@ -783,7 +783,7 @@ union storage_t
 
     void construct_value( value_type const & v )
     {
-        ::new( value_ptr() ) value_type( v );
+        ::new( const_cast<void *>( static_cast<void const volatile *>( value_ptr() ) ) ) value_type( v );
     }
 
 #if optional_CPP11_OR_GREATER
@@ -795,7 +795,7 @@ union storage_t
 
     void construct_value( value_type && v )
     {
-        ::new( value_ptr() ) value_type( nanostl::move( v ) );
+        ::new( const_cast<void *>( static_cast<void const volatile *>( value_ptr() ) ) ) value_type( nanostl::move( v ) );
     }
 
     template< class... Args >
@@ -807,13 +807,13 @@ union storage_t
     template< class... Args >
     void emplace( Args&&... args )
     {
-        ::new( value_ptr() ) value_type( nanostl::forward<Args>(args)... );
+        ::new( const_cast<void *>( static_cast<void const volatile *>( value_ptr() ) ) ) value_type( nanostl::forward<Args>(args)... );
     }
 
     template< class U, class... Args >
     void emplace( nanostl::initializer_list<U> il, Args&&... args )
     {
-        ::new( value_ptr() ) value_type( il, nanostl::forward<Args>(args)... );
+        ::new( const_cast<void *>( static_cast<void const volatile *>( value_ptr() ) ) ) value_type( il, nanostl::forward<Args>(args)... );
     }
 
 #endif
-- 
2.43.0


From e553b10cf964ad18ec91327e7f34d140e5f3225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:22:55 +0000
Subject: [PATCH 65/81] fix: hash<variant> did not compile

---
 include/nonstd/variant.hpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/nonstd/variant.hpp b/include/nonstd/variant.hpp
index 2e1aab3..81b5de9 100644
--- a/include/nonstd/variant.hpp
+++ b/include/nonstd/variant.hpp
@@ -2374,22 +2374,22 @@ struct hash< nonstd::variant<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T
 
         switch( v.index() )
         {
-            case 0: return nvd::hash( 0 ) ^ nvd::hash( this->get<0>( v ) );
-            case 1: return nvd::hash( 1 ) ^ nvd::hash( this->get<1>( v ) );
-            case 2: return nvd::hash( 2 ) ^ nvd::hash( this->get<2>( v ) );
-            case 3: return nvd::hash( 3 ) ^ nvd::hash( this->get<3>( v ) );
-            case 4: return nvd::hash( 4 ) ^ nvd::hash( this->get<4>( v ) );
-            case 5: return nvd::hash( 5 ) ^ nvd::hash( this->get<5>( v ) );
-            case 6: return nvd::hash( 6 ) ^ nvd::hash( this->get<6>( v ) );
-            case 7: return nvd::hash( 7 ) ^ nvd::hash( this->get<7>( v ) );
-            case 8: return nvd::hash( 8 ) ^ nvd::hash( this->get<8>( v ) );
-            case 9: return nvd::hash( 9 ) ^ nvd::hash( this->get<9>( v ) );
-            case 10: return nvd::hash( 10 ) ^ nvd::hash( this->get<10>( v ) );
-            case 11: return nvd::hash( 11 ) ^ nvd::hash( this->get<11>( v ) );
-            case 12: return nvd::hash( 12 ) ^ nvd::hash( this->get<12>( v ) );
-            case 13: return nvd::hash( 13 ) ^ nvd::hash( this->get<13>( v ) );
-            case 14: return nvd::hash( 14 ) ^ nvd::hash( this->get<14>( v ) );
-            case 15: return nvd::hash( 15 ) ^ nvd::hash( this->get<15>( v ) );
+            case 0: return nvd::hash( 0 ) ^ nvd::hash( nonstd::get<0>( v ) );
+            case 1: return nvd::hash( 1 ) ^ nvd::hash( nonstd::get<1>( v ) );
+            case 2: return nvd::hash( 2 ) ^ nvd::hash( nonstd::get<2>( v ) );
+            case 3: return nvd::hash( 3 ) ^ nvd::hash( nonstd::get<3>( v ) );
+            case 4: return nvd::hash( 4 ) ^ nvd::hash( nonstd::get<4>( v ) );
+            case 5: return nvd::hash( 5 ) ^ nvd::hash( nonstd::get<5>( v ) );
+            case 6: return nvd::hash( 6 ) ^ nvd::hash( nonstd::get<6>( v ) );
+            case 7: return nvd::hash( 7 ) ^ nvd::hash( nonstd::get<7>( v ) );
+            case 8: return nvd::hash( 8 ) ^ nvd::hash( nonstd::get<8>( v ) );
+            case 9: return nvd::hash( 9 ) ^ nvd::hash( nonstd::get<9>( v ) );
+            case 10: return nvd::hash( 10 ) ^ nvd::hash( nonstd::get<10>( v ) );
+            case 11: return nvd::hash( 11 ) ^ nvd::hash( nonstd::get<11>( v ) );
+            case 12: return nvd::hash( 12 ) ^ nvd::hash( nonstd::get<12>( v ) );
+            case 13: return nvd::hash( 13 ) ^ nvd::hash( nonstd::get<13>( v ) );
+            case 14: return nvd::hash( 14 ) ^ nvd::hash( nonstd::get<14>( v ) );
+            case 15: return nvd::hash( 15 ) ^ nvd::hash( nonstd::get<15>( v ) );
 
             default: return 0;
         }
-- 
2.43.0


From 1fd8b0e994f14cfd45c18087837454e5115a2c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:23:30 +0000
Subject: [PATCH 66/81] fix: a tuple could not be constructed from a tuple of
 other types

---
 include/tao/tuple/tuple.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/tao/tuple/tuple.hpp b/include/tao/tuple/tuple.hpp
index f4c2633..ff186cc 100644
--- a/include/tao/tuple/tuple.hpp
+++ b/include/tao/tuple/tuple.hpp
@@ -320,6 +320,10 @@ namespace tao
          }
       };
 
+      // selects the construction from the elements of another tuple
+      struct convert_tag
+      {};
+
       template< typename, typename... >
       struct tuple_base;
 
@@ -334,6 +338,11 @@ namespace tao
             : tuple_value< Is, Ts >( nanostl::forward< Us >( us ) )...
          {}
 
+         template< typename U >
+         TAO_TUPLE_CONSTEXPR TAO_TUPLE_CUDA_ANNOTATE_COMMON tuple_base( convert_tag, U&& u )
+            : tuple_value< Is, Ts >( tao::get< Is >( nanostl::forward< U >( u ) ) )...
+         {}
+
          template< typename A, typename... Us >
          TAO_TUPLE_CONSTEXPR TAO_TUPLE_CUDA_ANNOTATE_COMMON tuple_base( nanostl::allocator_arg_t, const A& a, Us&&... us )
             : tuple_value< Is, Ts >( uses_alloc_ctor_t< Ts, A, Us >(), a, nanostl::forward< Us >( us ) )...
@@ -437,7 +446,7 @@ namespace tao
                 typename = impl::enable_if_t< sizeof...( Us ) == sizeof...( Ts ) >,
                 typename = impl::enable_if_t< seq::is_all< nanostl::is_constructible< Ts, const Us& >::value... >::value > >
       TAO_TUPLE_CONSTEXPR TAO_TUPLE_CUDA_ANNOTATE_COMMON explicit tuple( const tuple< Us... >& v ) noexcept( seq::is_all< nanostl::is_nothrow_constructible< Ts, const Us& >::value... >::value )
-         : base( v )
+         : base( impl::convert_tag(), v )
       {}
 
       TAO_TUPLE_SUPPRESS_NVCC_HD_WARN
@@ -445,7 +454,7 @@ namespace tao
                 typename = impl::enable_if_t< sizeof...( Us ) == sizeof...( Ts ) >,
                 typename = impl::enable_if_t< seq::is_all< nanostl::is_constructible< Ts, Us&& >::value... >::value > >
       TAO_TUPLE_CONSTEXPR TAO_TUPLE_CUDA_ANNOTATE_COMMON explicit tuple( tuple< Us... >&& v ) noexcept( seq::is_all< nanostl::is_nothrow_constructible< Ts, Us&& >::value... >::value )
-         : base( nanostl::move( v ) )
+         : base( impl::convert_tag(), nanostl::move( v ) )
       {}
 
       TAO_TUPLE_SUPPRESS_NVCC_HD_WARN
-- 
2.43.0


From a64c5876be8bd9dd8723ba6723cde8de3c494149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:18 +0000
Subject: [PATCH 67/81] fix: optional<T> made from an optional<U>
 list-initialised its value

---
 include/nonstd/optional.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nonstd/optional.hpp b/include/nonstd/optional.hpp
index 1807154..50a6cc0 100644
--- a/include/nonstd/optional.hpp
+++ b/include/nonstd/optional.hpp
@@ -1027,7 +1027,7 @@ public:
     {
         if ( other.has_value() )
         {
-            contained.construct_value( T{ other.contained.value() } );
+            contained.construct_value( T( other.contained.value() ) );
         }
     }
 #endif // optional_CPP11_OR_GREATER
@@ -1082,7 +1082,7 @@ public:
     {
         if ( other.has_value() )
         {
-            contained.construct_value( T{ nanostl::move( other.contained.value() ) } );
+            contained.construct_value( T( nanostl::move( other.contained.value() ) ) );
         }
     }
 
-- 
2.43.0


From 1782f6363c6d4e2524332f0c637686eb9467c44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:30 +0000
Subject: [PATCH 68/81] fix: tao::ignore could not be assigned to

---
 include/tao/tuple/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tao/tuple/tuple.hpp b/include/tao/tuple/tuple.hpp
index ff186cc..80ca15d 100644
--- a/include/tao/tuple/tuple.hpp
+++ b/include/tao/tuple/tuple.hpp
@@ -571,7 +571,7 @@ namespace tao
       struct ignore_t
       {
          template< typename U >
-         TAO_TUPLE_CUDA_ANNOTATE_COMMON ignore_t& operator=( U&& )
+         TAO_TUPLE_CUDA_ANNOTATE_COMMON const ignore_t& operator=( U&& ) const
          {
             return *this;
          }
-- 
2.43.0


From 33898e69fca7ac60d0d1389d5b8534026cbcb48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:55 +0000
Subject: [PATCH 69/81] fix: a tuple of references could not be assigned to one
 of the same type

---
 include/tao/tuple/tuple.hpp | 44 +++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/include/tao/tuple/tuple.hpp b/include/tao/tuple/tuple.hpp
index 80ca15d..3e82ce7 100644
--- a/include/tao/tuple/tuple.hpp
+++ b/include/tao/tuple/tuple.hpp
@@ -117,10 +117,50 @@ namespace tao
       template< typename T, typename A, typename... As >
       using uses_alloc_ctor_t = uses_alloc_ctor< nanostl::uses_allocator< T, A >::value, nanostl::is_constructible< T, nanostl::allocator_arg_t, A, As... >::value >*;
 
+      // a reference as a member that can be assigned: what it refers to is
+      template< typename T >
+      struct tuple_reference
+      {
+         T ref;
+
+         template< typename U,
+                   typename = impl::enable_if_t< !nanostl::is_same< typename nanostl::decay< U >::type, tuple_reference >::value > >
+         constexpr TAO_TUPLE_CUDA_ANNOTATE_COMMON explicit tuple_reference( U&& v )
+            : ref( nanostl::forward< U >( v ) )
+         {}
+
+         tuple_reference( const tuple_reference& ) = default;
+         tuple_reference( tuple_reference&& ) = default;
+
+         TAO_TUPLE_CUDA_ANNOTATE_COMMON tuple_reference& operator=( const tuple_reference& v )
+         {
+            ref = v.ref;
+            return *this;
+         }
+
+         TAO_TUPLE_CUDA_ANNOTATE_COMMON tuple_reference& operator=( tuple_reference&& v )
+         {
+            ref = nanostl::forward< T >( v.ref );
+            return *this;
+         }
+
+         template< typename U >
+         TAO_TUPLE_CUDA_ANNOTATE_COMMON tuple_reference& operator=( U&& v )
+         {
+            ref = nanostl::forward< U >( v );
+            return *this;
+         }
+
+         constexpr TAO_TUPLE_CUDA_ANNOTATE_COMMON operator typename nanostl::remove_reference< T >::type&() const noexcept
+         {
+            return ref;
+         }
+      };
+
       template< nanostl::size_t I, typename T, bool = nanostl::is_empty< T >::value && !is_final< T >::value >
       struct tuple_value
       {
-         T value;
+         typename nanostl::conditional< nanostl::is_reference< T >::value, tuple_reference< T >, T >::type value;
 
          TAO_TUPLE_SUPPRESS_NVCC_HD_WARN
          TAO_TUPLE_CUDA_ANNOTATE_COMMON
@@ -208,7 +248,7 @@ namespace tao
          void swap( tuple_value& v ) noexcept( is_nothrow_swappable< T >::value )
          {
             using nanostl::swap;
-            swap( value, v.value );
+            swap( get(), v.get() );
          }
 
          TAO_TUPLE_CONSTEXPR
-- 
2.43.0


From 791f21117be366cbf288dbacf60c395b77e73687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 70/81] fix: visit copied its third and further variants

---
 include/nonstd/variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nonstd/variant.hpp b/include/nonstd/variant.hpp
index 81b5de9..38cb307 100644
--- a/include/nonstd/variant.hpp
+++ b/include/nonstd/variant.hpp
@@ -2135,7 +2135,7 @@ struct VisitorApplicator
 
 #if variant_CPP11_OR_GREATER
     template<typename Visitor, typename V1, typename V2, typename ... V>
-    static R apply(const Visitor& v, const V1& arg1, const V2& arg2, const V ... args)
+    static R apply(const Visitor& v, const V1& arg1, const V2& arg2, const V& ... args)
     {
         typedef VisitorUnwrapper<R, Visitor, V1> Unwrapper;
         Unwrapper unwrapper(v, arg1);
-- 
2.43.0


From a26ca0cd83829db963a9e07a28752c3c9d9e4c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:09 +0000
Subject: [PATCH 71/81] fix: get_if of a null pointer to a variant read through
 it

---
 include/nonstd/variant.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nonstd/variant.hpp b/include/nonstd/variant.hpp
index 38cb307..79294ff 100644
--- a/include/nonstd/variant.hpp
+++ b/include/nonstd/variant.hpp
@@ -1847,28 +1847,28 @@ template< class T, class T0, class T1, class T2, class T3, class T4, class T5, c
 inline typename std11::add_pointer<T>::type
 get_if( variant<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15> * pv, nonstd_lite_in_place_type_t(T) = nonstd_lite_in_place_type(T) )
 {
-    return ( pv->index() == variant<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15>::template index_of<T>() ) ? &get<T>( *pv ) : variant_nullptr;
+    return ( pv && pv->index() == variant<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15>::template index_of<T>() ) ? &get<T>( *pv ) : variant_nullptr;
 }
 
 template< class T, class T0, class T1, class T2, class T3, class T4, class T5, class T6, class T7, class T8, class T9, class T10, class T11, class T12, class T13, class T14, class T15 >
 inline typename std11::add_pointer<const T>::type
 get_if( variant<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15> const * pv, nonstd_lite_in_place_type_t(T) = nonstd_lite_in_place_type(T))
 {
-    return ( pv->index() == variant<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15>::template index_of<T>() ) ? &get<T>( *pv ) : variant_nullptr;
+    return ( pv && pv->index() == variant<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15>::template index_of<T>() ) ? &get<T>( *pv ) : variant_nullptr;
 }
 
 template< nanostl::size_t K, class T0, class T1, class T2, class T3, class T4, class T5, class T6, class T7, class T8, class T9, class T10, class T11, class T12, class T13, class T14, class T15 >
 inline typename std11::add_pointer< typename variant_alternative<K, variant<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15> >::type >::type
 get_if( variant<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15> * pv, nonstd_lite_in_place_index_t(K) = nonstd_lite_in_place_index(K) )
 {
-    return ( pv->index() == K ) ? &get<K>( *pv ) : variant_nullptr;
+    return ( pv && pv->index() == K ) ? &get<K>( *pv ) : variant_nullptr;
 }
 
 template< nanostl::size_t K, class T0, class T1, class T2, class T3, class T4, class T5, class T6, class T7, class T8, class T9, class T10, class T11, class T12, class T13, class T14, class T15 >
 inline typename std11::add_pointer< const typename variant_alternative<K, variant<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15> >::type >::type
 get_if( variant<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15> const * pv, nonstd_lite_in_place_index_t(K) = nonstd_lite_in_place_index(K) )
 {
-    return ( pv->index() == K ) ? &get<K>( *pv )  : variant_nullptr;
+    return ( pv && pv->index() == K ) ? &get<K>( *pv )  : variant_nullptr;
 }
 
 // 19.7.10 Specialized algorithms
-- 
2.43.0


From e7dc2281b28397853bb559e26236ed80235c93c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 72/81] fix: a copy assignment to a variant destroyed its value
 before copying the new one

---
 include/nonstd/variant.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/nonstd/variant.hpp b/include/nonstd/variant.hpp
index 79294ff..e317295 100644
--- a/include/nonstd/variant.hpp
+++ b/include/nonstd/variant.hpp
@@ -1621,9 +1621,14 @@ private:
         }
         else
         {
+#if variant_CPP11_OR_GREATER
+            // copy before destroying: the copy may throw, or be of a part of the value held
+            return move_assign( variant( other ) );
+#else
             helper_type::destroy( type_index, ptr() );
             type_index = variant_npos_internal();
             type_index = helper_type::copy_construct( other.type_index, other.ptr(), ptr() );
+#endif
         }
         return *this;
     }
@@ -1682,10 +1687,15 @@ private:
         }
         else
         {
+#if variant_CPP11_OR_GREATER
+            // copy before destroying: the copy may throw, or be of a part of the value held
+            return move_assign( variant( value ) );
+#else
             helper_type::destroy( type_index, ptr() );
             type_index = variant_npos_internal();
             new( ptr() ) T( value );
             type_index = K;
+#endif
         }
         return *this;
     }
-- 
2.43.0


From 36d1633b7a88baa4ef2d24c8d7c17dda2c0c41c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 73/81] fix: tuple_cat copied the elements of temporary tuples

---
 include/tao/tuple/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tao/tuple/tuple.hpp b/include/tao/tuple/tuple.hpp
index 3e82ce7..aeb25b5 100644
--- a/include/tao/tuple/tuple.hpp
+++ b/include/tao/tuple/tuple.hpp
@@ -981,7 +981,7 @@ namespace tao
       template< typename R, nanostl::size_t... Os, nanostl::size_t... Is, typename T >
       TAO_TUPLE_CONSTEXPR TAO_TUPLE_CUDA_ANNOTATE_COMMON R tuple_cat( seq::index_sequence< Os... >, seq::index_sequence< Is... >, T v )
       {
-         return R( get< Is >( get< Os >( v ) )... );
+         return R( get< Is >( get< Os >( nanostl::move( v ) ) )... );
       }
 
    }  // namespace impl
-- 
2.43.0


From cec99ae495594af05633b5286f5a74b5af9b638e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:01 +0000
Subject: [PATCH 74/81] fix: tuple_element of a const tuple was not const

---
 include/tao/tuple/tuple.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/tao/tuple/tuple.hpp b/include/tao/tuple/tuple.hpp
index aeb25b5..5daa138 100644
--- a/include/tao/tuple/tuple.hpp
+++ b/include/tao/tuple/tuple.hpp
@@ -697,18 +697,21 @@ namespace tao
 
    template< nanostl::size_t I, typename T >
    struct tuple_element< I, const T >
-      : tuple_element< I, T >
-   {};
+   {
+      using type = const typename tuple_element< I, T >::type;
+   };
 
    template< nanostl::size_t I, typename T >
    struct tuple_element< I, volatile T >
-      : tuple_element< I, T >
-   {};
+   {
+      using type = volatile typename tuple_element< I, T >::type;
+   };
 
    template< nanostl::size_t I, typename T >
    struct tuple_element< I, const volatile T >
-      : tuple_element< I, T >
-   {};
+   {
+      using type = const volatile typename tuple_element< I, T >::type;
+   };
 
    template< nanostl::size_t I, typename... Ts >
    struct tuple_element< I, tuple< Ts... > >
@@ -960,7 +963,7 @@ namespace tao
       template< nanostl::size_t... Os, nanostl::size_t... Is, typename... Ts >
       struct tuple_cat_result< seq::index_sequence< Os... >, seq::index_sequence< Is... >, Ts... >
       {
-         using type = tuple< typename tuple_element< Is, seq::at_index_t< Os, Ts... > >::type... >;
+         using type = tuple< typename tuple_element< Is, typename nanostl::remove_cv< seq::at_index_t< Os, Ts... > >::type >::type... >;
       };
 
       template< typename... Ts >
-- 
2.43.0


From e42e8aaa85c8c9e56761e8a442d0cff4524016fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:59 +0000
Subject: [PATCH 75/81] fix: basic_string of another type than char could not
 be indexed

---
 include/nanostring.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index c539e21..0b9d5ac 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -120,13 +120,13 @@ class basic_string {
   const charT *c_str() const { return &data_.at(0); }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  char &at(size_type pos) { return data_[pos]; }
+  charT &at(size_type pos) { return data_[pos]; }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   const charT &at(size_type pos) const { return data_[pos]; }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  char &operator[](size_type pos) { return data_[pos]; }
+  charT &operator[](size_type pos) { return data_[pos]; }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   const charT &operator[](size_type pos) const { return data_[pos]; }
-- 
2.43.0


From cb330ca199445d22c65e6b3d810000ae3bff6237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 76/81] fix: comparing strings of wide characters looked at
 their first bytes only

---
 include/nanostring.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 0b9d5ac..e075932 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -201,8 +201,17 @@ class basic_string {
       return (np ? 1 : 0) - (nq ? 1 : 0);
     }
 
-    return *reinterpret_cast<const unsigned char *>(p) -
-           *reinterpret_cast<const unsigned char *>(q);
+    return less_(*p, *q) ? -1 : 1;
+  }
+
+  // `char` is ordered as `unsigned char`, the other types by their values.
+  static inline bool less_(char a, char b) {
+    return static_cast<unsigned char>(a) < static_cast<unsigned char>(b);
+  }
+
+  template <class U>
+  static inline bool less_(U a, U b) {
+    return a < b;
   }
 };
 
-- 
2.43.0


From df2167bf20b80c65accc4d8fa3af7442c8887faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:33 +0000
Subject: [PATCH 77/81] fix: libs_thread.h did not compile as C: it lacked the
 headers of what it uses

---
 src/libs_thread.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 1c3e618..a66e171 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -614,9 +614,15 @@ struct thread_queue_t
 
 #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
+    #if defined( __linux__ ) && !defined( _GNU_SOURCE )
+        #define _GNU_SOURCE // for pthread_setname_np (C++ compilers define it)
+    #endif
+    #include <errno.h>
     #include <limits.h>
     #include <pthread.h>
+    #include <stdint.h>
     #include <stdlib.h>
+    #include <string.h>
     #include <sys/time.h>
     #include <unistd.h>
 
-- 
2.43.0


From 8560299bf6da898b3e139da13a55daf61a984c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 78/81] fix: numeric_limits<char> was wrong where char is
 unsigned

---
 include/nanolimits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nanolimits.h b/include/nanolimits.h
index 214bd2e..7cc10fd 100644
--- a/include/nanolimits.h
+++ b/include/nanolimits.h
@@ -63,9 +63,9 @@ struct numeric_limits<bool> : public __limits_digits10<0> {
 template <>
 struct numeric_limits<char> : public __limits_digits10<2> {
   NANOSTL_HOST_AND_DEVICE_QUAL
-  static inline char min(void) { return -128; }
+  static inline char min(void) { return (static_cast<char>(-1) < 0) ? -128 : 0; }
   NANOSTL_HOST_AND_DEVICE_QUAL
-  static inline char max(void) { return 127; }
+  static inline char max(void) { return (static_cast<char>(-1) < 0) ? 127 : 255; }
   NANOSTL_HOST_AND_DEVICE_QUAL
   static inline char epsilon(void) { return 0; }
 };
-- 
2.43.0


From 62a902436d13e2c9c8317400ab769c3ac3e350e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:29 +0000
Subject: [PATCH 79/81] fix: sin was 0 next to pi/2 where the compiler fuses
 multiplications and additions

---
 include/nanomath.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index fcecffd..80ae838 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -557,7 +557,9 @@ static inline float sin(float x) {
   // For large x, the argument reduction can fail and the polynomial can be
   // evaluated with arguments outside the valid internal. Just clamp the bad
   // values away (setting to 0.0f means no branches need to be generated).
-  if (fabs(u) > 1.0f) u = 0.0f;
+  // A result that is only rounded beyond 1.0f, as it happens when the compiler
+  // fuses the operations of madd, is not a bad one.
+  if (fabs(u) > 1.0f) u = (fabs(u) < 1.00001f) ? copysign(1.0f, u) : 0.0f;
   return u;
 }
 
-- 
2.43.0


From d10627edc1fcaab79db432c65f6ca9a0e923a195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:05 +0000
Subject: [PATCH 80/81] fix: the first thread-local slot of a process was NULL,
 which means failure

---
 src/libs_thread.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index a66e171..9acebea 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1342,13 +1342,13 @@ thread_tls_t thread_tls_create( void )
         if( tls == TLS_OUT_OF_INDEXES )
             return NULL;
         else
-            return (thread_tls_t) (uintptr_t) tls;
+            return (thread_tls_t) ( (uintptr_t) tls + 1 ); // the first index is 0, but NULL means failure
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
         pthread_key_t tls;
         if( pthread_key_create( &tls, NULL ) == 0 )
-            return (thread_tls_t) (uintptr_t) tls;
+            return (thread_tls_t) ( (uintptr_t) tls + 1 ); // the first key is 0, but NULL means failure
         else
             return NULL;
 
@@ -1362,11 +1362,11 @@ void thread_tls_destroy( thread_tls_t tls )
     {
     #if defined( _WIN32 )
 
-        TlsFree( (DWORD) (uintptr_t) tls );
+        TlsFree( (DWORD) ( (uintptr_t) tls - 1 ) );
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        pthread_key_delete( (pthread_key_t) (uintptr_t) tls );
+        pthread_key_delete( (pthread_key_t) ( (uintptr_t) tls - 1 ) );
 
     #else
         #error Unknown platform.
@@ -1378,11 +1378,11 @@ void thread_tls_set( thread_tls_t tls, void* value )
     {
     #if defined( _WIN32 )
 
-        TlsSetValue( (DWORD) (uintptr_t) tls, value );
+        TlsSetValue( (DWORD) ( (uintptr_t) tls - 1 ), value );
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        pthread_setspecific( (pthread_key_t) (uintptr_t) tls, value );
+        pthread_setspecific( (pthread_key_t) ( (uintptr_t) tls - 1 ), value );
 
     #else
         #error Unknown platform.
@@ -1394,11 +1394,11 @@ void* thread_tls_get( thread_tls_t tls )
     {
     #if defined( _WIN32 )
 
-        return TlsGetValue( (DWORD) (uintptr_t) tls );
+        return TlsGetValue( (DWORD) ( (uintptr_t) tls - 1 ) );
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        return pthread_getspecific( (pthread_key_t) (uintptr_t) tls );
+        return pthread_getspecific( (pthread_key_t) ( (uintptr_t) tls - 1 ) );
 
     #else
         #error Unknown platform.
-- 
2.43.0


From f8bdb2db4c26fa1c9620441fcd6587610b12db9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:06 +0000
Subject: [PATCH 81/81] fix: thread_signal_raise used the signal after a waiter
 might have terminated it

---
 src/libs_thread.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 9acebea..fb71d4f 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -983,8 +983,8 @@ void thread_signal_raise( thread_signal_t* signal )
         #if _WIN32_WINNT >= 0x0600
             EnterCriticalSection( &internal->mutex );
             internal->value = 1;
-            LeaveCriticalSection( &internal->mutex );
             WakeConditionVariable( &internal->condition );
+            LeaveCriticalSection( &internal->mutex );
         #else
             SetEvent( internal->event );
         #endif
@@ -993,8 +993,8 @@ void thread_signal_raise( thread_signal_t* signal )
 
         pthread_mutex_lock( &internal->mutex );
         internal->value = 1;
+        pthread_cond_signal( &internal->condition ); // before the unlock, after which a waiter may terminate the signal
         pthread_mutex_unlock( &internal->mutex );
-        pthread_cond_signal( &internal->condition );
 
     #else
         #error Unknown platform.
-- 
2.43.0

