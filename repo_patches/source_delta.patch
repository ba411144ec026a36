From 5623d19bb52e6201104cb5a7ffee63d6650a2230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:08 +0000
Subject: [PATCH 01/40] fix: AtomicFile::commit() without an open session
 removed a stale temporary name

A second commit(), or one after abort() or a failed open(), went on to
unlink() the previous session's temporary name, which may by then belong
to another session's file.
---
 src/AtomicFile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/AtomicFile.cpp b/src/AtomicFile.cpp
index e675837..df614cf 100644
--- a/src/AtomicFile.cpp
+++ b/src/AtomicFile.cpp
@@ -76,6 +76,9 @@ bool AtomicFile::abort() {
 bool AtomicFile::commit() {
   bool result, remove_temp;
 
+  if (!is_open()) {
+    return false;
+  }
   result = false;
   remove_temp = true;
   if (_mode != mode_t(-1) && fchmod(_fd, _mode) != 0) {
-- 
2.43.0


From 0d478d2e900dde94d0d1148b252500f73b898ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:08 +0000
Subject: [PATCH 02/40] fix: AtomicFile::commit() leaked the descriptor when
 fchmod or fsync failed

---
 src/AtomicFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/AtomicFile.cpp b/src/AtomicFile.cpp
index df614cf..876b984 100644
--- a/src/AtomicFile.cpp
+++ b/src/AtomicFile.cpp
@@ -82,9 +82,11 @@ bool AtomicFile::commit() {
   result = false;
   remove_temp = true;
   if (_mode != mode_t(-1) && fchmod(_fd, _mode) != 0) {
+    ::close(_fd);
     goto cleanup;
   }
   if (::fsync(_fd) != 0) {
+    ::close(_fd);
     goto cleanup;
   }
   if (::close(_fd) != 0) {
-- 
2.43.0


From 9574000239f664ee12326188e8bd315b4fb2eb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:08 +0000
Subject: [PATCH 03/40] fix: AtomicFile::open() over an unfinished session
 leaked its descriptor and temporary

---
 src/AtomicFile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/AtomicFile.cpp b/src/AtomicFile.cpp
index 876b984..042da89 100644
--- a/src/AtomicFile.cpp
+++ b/src/AtomicFile.cpp
@@ -38,6 +38,9 @@ bool AtomicFile::open(const String& fname, mode_t mode) {
   size_t slash_pos;
   String dir;
 
+  /* Reopening drops an unfinished session, same as destroying it would. */
+  abort();
+
   _fname = fname;
   _mode = mode;
 
-- 
2.43.0


From 5aaed3e9aa426bb57c11d89702c238a97db7999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:35 +0000
Subject: [PATCH 04/40] fix: Stream::writeFile() crashed on a full disk and
 could report success for a file it did not write

With mmap a full disk raised SIGBUS; without it a longer old file kept its
tail, data went to the descriptor's current offset, and errors from close()
were ignored.
---
 src/Stream.cpp | 47 ++++++++++++++++-------------------------------
 1 file changed, 16 insertions(+), 31 deletions(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index 58a750c..619aaf0 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -35,6 +35,7 @@
 #  include <fcntl.h>
 #  include <cstring>
 #endif
+#include <cerrno>
 #include <unistd.h>
 
 
@@ -159,43 +160,27 @@ int Stream::writeFile(const String& file, mode_t mode) const
   if (fd == -1)
     return 1;
   int ret = writeFile(fd);
-  close(fd);
+  if (close(fd) == -1)
+    ret = 1;
   return ret;
 }
 
 int Stream::writeFile(const int fd) const
 {
-#ifdef HAVE_MMAP
-  /* Write to end of file to make its size match */
-  /* Seek past wherever it is at now plus our length */
-  if (ftruncate(fd, length())) return 1;
-  if (!length())
-    return 0;
-
-  void* map = mmap(0, length(), PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
-
-  if (map == MAP_FAILED) return 1;
-
-  std::memcpy(map, str.cbegin(), length());
-
-  if (munmap(map, length()) == -1) return 1;
-#else
-  int my_fd = dup(fd);
-  if (my_fd == -1) {
-    return 1;
+  /*
+   * Write with pwrite(2) rather than through a shared mapping: running out of
+   * space while storing into a mapping of a sparse file kills the process.
+   */
+  if (ftruncate(fd, 0) == -1) return 1;
+
+  size_t written = 0;
+  while (written < length()) {
+    const ssize_t n = pwrite(fd, str.cbegin() + written, length() - written, written);
+    if (n == -1 && errno == EINTR)
+      continue;
+    if (n <= 0) return 1;
+    written += n;
   }
-  FILE *f = fdopen(my_fd, "wb");
-  if (f == nullptr) {
-    close(my_fd);
-    return 1;
-  }
-
-  if ((fwrite(str.cbegin(), 1, length(), f) != length()) || (fflush(f))) {
-    fclose(f);
-    return 1;
-  }
-  fclose(f);
-#endif
   return 0;
 }
 
-- 
2.43.0


From 3c765a6404b03858197426ef1dcc13b627d760cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:08 +0000
Subject: [PATCH 05/40] fix: Stream::loadFile() left the loading flag and
 descriptors behind and ignored read errors

The flag stayed set when puts() or an allocation threw, the descriptor opened
by name was leaked, an empty file was reported as an error with mmap, read
errors were ignored without it and raised SIGBUS with it.
---
 src/Stream.cpp | 75 ++++++++++++++++++++++++--------------------------
 1 file changed, 36 insertions(+), 39 deletions(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index 619aaf0..4f1d6af 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -28,13 +28,6 @@
 #include "Stream.h"
 #include <algorithm> // min() / max()
 
-#ifdef HAVE_MMAP
-#  include <sys/mman.h>
-#  include <sys/types.h>
-#  include <sys/stat.h>
-#  include <fcntl.h>
-#  include <cstring>
-#endif
 #include <cerrno>
 #include <unistd.h>
 
@@ -101,7 +94,13 @@ int Stream::loadFile(const String& file)
   int fd = open(file.c_str(), O_RDONLY);
   if (fd == -1)
     return 1;
-  int ret = loadFile(fd);
+  int ret;
+  try {
+    ret = loadFile(fd);
+  } catch (...) {
+    close(fd);
+    throw;
+  }
   close(fd);
   return ret;
 }
@@ -109,46 +108,44 @@ int Stream::loadFile(const String& file)
 int Stream::loadFile(const int fd)
 {
   clear();
-#ifdef HAVE_MMAP
-  ssize_t size = lseek(fd, 0, SEEK_END);
-  if (size < 0) {
+  struct stat st;
+  if (fstat(fd, &st) == -1 || S_ISDIR(st.st_mode)) {
     return 1;
   }
-  reserve(size);
-  void* map = mmap(0, size, PROT_READ, MAP_PRIVATE, fd, 0);
-  if (map == MAP_FAILED) {
+  const off_t size = lseek(fd, 0, SEEK_END);
+  if (size < 0) {
     return 1;
   }
-  loading = 1;
 
-  puts(String(static_cast<const char*>(map), size));
-
-  munmap(map, size);
-#else
-  int my_fd = dup(fd);
-  if (my_fd == -1) {
-    return 1;
-  }
-  FILE *f = fdopen(my_fd, "rb");
-  if (f == nullptr) {
-    close(my_fd);
-    return 1;
+  /*
+   * Read with pread(2) rather than through a mapping: a read error or a
+   * concurrent truncation would kill the process.
+   */
+  String buf(static_cast<size_t>(size));
+  buf.resize(size);
+  char* const data = buf.mdata();
+  size_t len = 0;
+  while (len < buf.length()) {
+    const ssize_t n = pread(fd, data + len, buf.length() - len, len);
+    if (n == -1) {
+      if (errno == EINTR)
+        continue;
+      return 1;
+    }
+    if (n == 0)
+      break;
+    len += n;
   }
+  buf.resize(len);
 
   loading = 1;
-  fseek(f, 0, SEEK_END);
-  size_t size = ftell(f);
-  fseek(f, 0, SEEK_SET);
-  reserve(size);
-
-  size_t len = 0;
-  char buf[STREAM_BLOCKSIZE + 1];
-
-  while ((len = fread(buf, 1, sizeof(buf) - 1, f))) {
-    puts(String(buf, len));
+  try {
+    reserve(len);
+    puts(std::move(buf));
+  } catch (...) {
+    loading = 0;
+    throw;
   }
-  fclose(f);
-#endif
   seek(0, SEEK_SET);
   loading = 0;
   return 0;
-- 
2.43.0


From 4881e0f9589f8bdd28e0b2c33f1ea3014cb56d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:46 +0000
Subject: [PATCH 06/40] fix: copy-on-write used and leaked a buffer whose other
 holders let go of it meanwhile

Detaching before copying let another thread free the buffer being copied, the
last holder leaked it, and a failed allocation lost the value.
---
 src/ReferenceCountedArray.h | 38 ++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 1c512bd..79d5aac 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -253,11 +253,12 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
     /**
      * @brief Detach from the shared reference.
-     * This is only called when losing the old buffer or when modifying the buffer (and copy-on-write is used)
-     * @note This does not free the old reference, as it is still in use
+     * This is only called when losing the old buffer
+     * @note This frees the old reference if all other holders let go of it meanwhile
      */
     void doDetach() const noexcept {
-      decRef();
+      if (Ref && decRef() < 1)
+        delete Ref;
       Ref = nullptr;
       sublen = 0;
       offset = 0;
@@ -381,14 +382,33 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * Also take a hint size n of the new ReferenceCountedArray's size as to avoid needless copying/allocing.
      */
     inline void COW(size_t n) const {
-      const_pointer oldBuf = constBuf();
+      ArrayRef<value_type, Allocator>* const oldRef = Ref;
+      const size_t oldOffset = offset;
       const size_t oldLength = length();
+      const_pointer const oldBuf = constBuf();
 
-      assert(isShared());
-      doDetach(); //Detach from the shared reference
-      reserve(n, _rca_cow_scaling_factor); //Will set capacity()/size
-      sublen = std::min(oldLength, n);
-      std::copy(oldBuf, oldBuf + sublen, Buf());
+      /*
+       * Hold on to the shared reference until the copy is made: the other
+       * holders may let go of it meanwhile, and if there is no memory for the
+       * copy it remains ours.
+       */
+      Ref = nullptr;
+      sublen = 0;
+      offset = 0;
+      my_hash = 0;
+      try {
+        reserve(n, _rca_cow_scaling_factor); //Will set capacity()/size
+        sublen = std::min(oldLength, n);
+        std::copy(oldBuf, oldBuf + sublen, Buf());
+      } catch (...) {
+        delete Ref;
+        Ref = oldRef;
+        offset = oldOffset;
+        sublen = oldLength;
+        throw;
+      }
+      if (--oldRef->refs < 1)
+        delete oldRef;
     }
 
   protected:
-- 
2.43.0


From 8975ef12cdce94c1192163045080628f5480fad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:46 +0000
Subject: [PATCH 07/40] fix: reserve() modified a buffer shared with other
 values and could cut off the last character

---
 src/ReferenceCountedArray.h | 4 ++++
 src/String.h                | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 79d5aac..7e5a279 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -627,6 +627,10 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
         double scaling_factor = 1) const {
       if (!Ref) {
         Ref = new ArrayRef<value_type, Allocator>(alloc);
+      } else if (isShared()) {
+        /* The buffer is not ours to grow or shift. */
+        COW(std::max(newSize, length()));
+        return;
       }
       Ref->reserve(newSize, scaling_factor, offset, sublen);
     }
diff --git a/src/String.h b/src/String.h
index 762f842..d2a1d94 100755
--- a/src/String.h
+++ b/src/String.h
@@ -136,7 +136,8 @@ class String : public ReferenceCountedArray<String_Array_Type> {
 
         void reserve(const size_t newSize,
             double scaling_factor = 1) const override {
-          const size_t realSize = newSize > 0 ? newSize + 1 : newSize;
+          const size_t size = std::max(newSize, length());
+          const size_t realSize = size > 0 ? size + 1 : size;
           ReferenceCountedArray::reserve(realSize, scaling_factor);
           if (constBuf() != nullptr) {
             *Buf(capacity() - offset - 1) = '\0';
-- 
2.43.0


From bf6d8b00501644d6e462c7b47dad91c630e8d82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:46 +0000
Subject: [PATCH 08/40] fix: String::c_str() looked one past the end of a full
 buffer

---
 src/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.h b/src/String.h
index d2a1d94..53c82d6 100755
--- a/src/String.h
+++ b/src/String.h
@@ -235,7 +235,7 @@ class String : public ReferenceCountedArray<String_Array_Type> {
             return "";
           assert(constBuf() != nullptr);
           assert(length() > 0);
-          if (*constBuf(length()) != '\0') {
+          if (offset + length() >= capacity() || *constBuf(length()) != '\0') {
             assert(sublen > 0);
             AboutToModify(length() + 1);
             *(Buf(length())) = '\0';
-- 
2.43.0


From 6b01728e764db9c88e6accbd8a883425b45d7d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:46 +0000
Subject: [PATCH 09/40] fix: two threads destroying the last two Strings could
 both skip wiping the buffer

Looking at the count and dropping the reference were separate steps, and the
wipe counter was modified without synchronization.
---
 src/ReferenceCountedArray.h | 15 +++++++++++++++
 src/String.cpp              |  2 +-
 src/String.h                | 14 ++++++++------
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 7e5a279..7c23608 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -432,6 +432,21 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       }
     }
 
+    /**
+     * @brief Let go of our reference.
+     * @return True if it was the last one. The buffer is then only ours and
+     * still to be freed by the destructor.
+     */
+    inline bool dropRef() noexcept {
+      if (!Ref) return false;
+      if (decRef() < 1) {
+        Ref->refs = 1;
+        return true;
+      }
+      Ref = nullptr;
+      return false;
+    }
+
     /**
      * @brief Checks if the buffer has the given index or not.
      * @param pos Index to check.
diff --git a/src/String.cpp b/src/String.cpp
index bb4ca5c..f6c3a70 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -36,7 +36,7 @@
 
 BDLIB_NS_BEGIN
 
-unsigned char String::cleanse_ctr = 0;
+std::atomic<unsigned char> String::cleanse_ctr{0};
 
 /* Accessors */
 int String::compare(const String& str) const noexcept
diff --git a/src/String.h b/src/String.h
index 53c82d6..48a51fd 100755
--- a/src/String.h
+++ b/src/String.h
@@ -65,7 +65,7 @@ typedef char String_Array_Type;
 class String : public ReferenceCountedArray<String_Array_Type> {
   private:
         typedef std::allocator<String_Array_Type> Allocator;
-        static unsigned char cleanse_ctr;
+        static std::atomic<unsigned char> cleanse_ctr;
 
         /* Cleanse our buffer using OPENSSL_cleanse() */
         void cleanse() noexcept {
@@ -74,13 +74,15 @@ class String : public ReferenceCountedArray<String_Array_Type> {
 
           unsigned char *p = reinterpret_cast<unsigned char *>(ptr);
           size_t loop = len;
+          unsigned char ctr = cleanse_ctr.load(std::memory_order_relaxed);
           while(loop--)
           {
-            *(p++) = static_cast<unsigned char>(cleanse_ctr);
-            cleanse_ctr += (17 + (reinterpret_cast<size_t>(p) & 0xF));
+            *(p++) = ctr;
+            ctr += (17 + (reinterpret_cast<size_t>(p) & 0xF));
           }
-          if(memchr(ptr, cleanse_ctr, len))
-            cleanse_ctr += (63 + reinterpret_cast<size_t>(p));
+          if(memchr(ptr, ctr, len))
+            ctr += (63 + reinterpret_cast<size_t>(p));
+          cleanse_ctr.store(ctr, std::memory_order_relaxed);
         }
   public:
 
@@ -148,7 +150,7 @@ class String : public ReferenceCountedArray<String_Array_Type> {
 
         ~String() {
           /* If deallocating the last reference, cleanse the string buffer with OPENSSL_cleanse() */
-          if (rcount() == 1) {
+          if (dropRef()) {
             cleanse();
           }
         }
-- 
2.43.0


From 538825fab7f45dac8d16499fae8fd3d7e397d0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:46 +0000
Subject: [PATCH 10/40] fix: resize() constructed elements over live ones,
 leaking what they held

---
 src/ReferenceCountedArray.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 7c23608..2dda1ea 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -686,14 +686,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
         setLength(len);
       } else {
         AboutToModify(len);
-        /*
-         * Use constructing for objects but allow memset
-         * for simple types via std::fill.
-         */
-        if __CPP17_IFCONSTEXPR (std::is_class<T>::value)
-          std::uninitialized_fill(Buf(length()), Buf(len), value);
-        else
-          std::fill(Buf(length()), Buf(len), value);
+        /* reserve() has constructed every element of the buffer. */
+        std::fill(Buf(length()), Buf(len), value);
         sublen = len;
       }
     }
-- 
2.43.0


From bd56a7178ab0156ed462d0b30353828f95df4120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:46 +0000
Subject: [PATCH 11/40] fix: a moved-from container kept a length without a
 buffer

---
 src/ReferenceCountedArray.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 2dda1ea..38399ea 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -478,11 +478,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       Ref(rca.Ref), offset(rca.offset),
       sublen(rca.sublen), my_hash(rca.my_hash) {
       rca.Ref = nullptr;
-#ifdef CPPUNIT_VERSION
       rca.offset = 0;
       rca.sublen = 0;
       rca.my_hash = 0;
-#endif
     }
   public:
     /**
@@ -584,11 +582,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       my_hash = rca.my_hash;
       Ref = rca.Ref;
 
-#ifdef CPPUNIT_VERSION
       rca.offset = 0;
       rca.sublen = 0;
       rca.my_hash = 0;
-#endif
       rca.Ref = nullptr;
 
       return *this;
-- 
2.43.0


From 59178cf5125b0b77be7b13236c11576aa30e176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:46 +0000
Subject: [PATCH 12/40] fix: adding a container's own element to it read the
 element after it was freed or moved

---
 src/ReferenceCountedArray.h | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 38399ea..4d8a01d 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -871,8 +871,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @brief Write an item to the given index
      */
     inline void write(size_t pos, const_reference item) {
-      getOwnCopy();
-      *(Buf(pos)) = item;
+      write(pos, value_type(item)); // item may be one of our own
     };
     inline void write(size_t pos, value_type&& item) {
       getOwnCopy();
@@ -1204,11 +1203,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       if (pos != 0)
         validateIndex(pos - 1);
 
-      AboutToModify(length() + 1);
-      /* Shift right */
-      std::move_backward(constBuf(pos), constBuf(length()), Buf(length() + 1));
-      *(Buf(pos)) = item;
-      ++sublen;
+      insert(pos, value_type(item)); // item may be one of our own
     }
 
     /**
@@ -1242,8 +1237,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       if (pos != 0)
         validateIndex(pos - 1);
 
-      getOwnCopy();
-      *(Buf(pos)) = item;
+      replace(pos, value_type(item)); // item may be one of our own
     }
 
     /**
-- 
2.43.0


From d3841b003e0c00a0c27178bf3a0e180da3bba832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:46 +0000
Subject: [PATCH 13/40] fix: inserting a longer array or string at the front
 dropped the old contents

---
 src/ReferenceCountedArray.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 4d8a01d..76d8d40 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -1093,8 +1093,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       size_t slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just replace ours with a reference of theirs */
-      if (pos == 0 && slen > length() && n == slen) {
+      /* We are empty, just replace ours with a reference of theirs */
+      if (pos == 0 && isEmpty() && n == slen) {
         *this = rca;
         return;
       }
@@ -1121,8 +1121,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       const auto slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just replace ours with a reference of theirs */
-      if (pos == 0 && slen > length()) {
+      /* We are empty, just replace ours with a reference of theirs */
+      if (pos == 0 && isEmpty()) {
         *this = rca;
         return;
       }
@@ -1148,8 +1148,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       size_t slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just move theirs */
-      if (pos == 0 && slen > length() && n == slen) {
+      /* We are empty, just move theirs */
+      if (pos == 0 && isEmpty() && n == slen) {
         *this = std::move(rca);
         return;
       }
@@ -1176,8 +1176,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       const auto slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just move theirs */
-      if (pos == 0 && slen > length()) {
+      /* We are empty, just move theirs */
+      if (pos == 0 && isEmpty()) {
         *this = std::move(rca);
         return;
       }
-- 
2.43.0


From e2db59db200f40e46b08ce4e0ab5d0ba2c124d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:43 +0000
Subject: [PATCH 14/40] fix: writing through front() or back() changed every
 value sharing the buffer

---
 src/Array.h                 | 4 +++-
 src/ReferenceCountedArray.h | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Array.h b/src/Array.h
index 2dfb472..5901e4a 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -127,7 +127,9 @@ class Array : public ReferenceCountedArray<T> {
      */
     inline value_type pop() & {
       assert(!this->isEmpty());
-      value_type temp(this->isShared() ? this->back() : std::move(this->back()));
+      pointer item{this->Buf(this->length() - 1)};
+
+      value_type temp(this->isShared() ? *item : std::move(*item));
       this->pop_back();
       return temp;
     }
diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 76d8d40..e0973e6 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -1019,7 +1019,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
     inline void push_back(const_reference item) { append(item); };
     inline void push_back(value_type&& item) { append(std::move(item)); };
 
-    inline reference front() noexcept __attribute__((pure)) {
+    inline reference front() {
+      getOwnCopy();
       return *Buf(0);
     }
 
@@ -1027,7 +1028,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       return *constBuf(0);
     }
 
-    inline reference back() noexcept __attribute__((pure)) {
+    inline reference back() {
+      getOwnCopy();
       return *Buf(length() - 1);
     }
 
-- 
2.43.0


From d1f5e58e14bd1168b6c79f47be27f29a4c973b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:43 +0000
Subject: [PATCH 15/40] fix: inserting a container into itself read elements it
 had already shifted

---
 src/ReferenceCountedArray.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index e0973e6..94f8ef5 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -1093,6 +1093,11 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       if (pos != 0)
         validateIndex(pos - 1);
 
+      if (&rca == this) {
+        insert(pos, ReferenceCountedArray(rca), n);
+        return;
+      }
+
       size_t slen = rca.length();
 
       /* We are empty, just replace ours with a reference of theirs */
@@ -1121,6 +1126,11 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       if (pos != 0)
         validateIndex(pos - 1);
 
+      if (&rca == this) {
+        insert(pos, ReferenceCountedArray(rca));
+        return;
+      }
+
       const auto slen = rca.length();
 
       /* We are empty, just replace ours with a reference of theirs */
@@ -1268,6 +1278,11 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       if (pos != 0)
         validateIndex(pos - 1);
 
+      if (&rca == this) {
+        replace(pos, ReferenceCountedArray(rca), n);
+        return;
+      }
+
       size_t slen = rca.length();
 
       /* Replace rca is longer than ours, and inserting at 0, just replace ours with a reference of theirs */
-- 
2.43.0


From fe4d08a76be374dde3b6c9dbd64af247906ed9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:43 +0000
Subject: [PATCH 16/40] fix: String::printf() read past its buffer for results
 of 4096 characters or more

---
 src/String.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index f6c3a70..90db25c 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -249,8 +249,18 @@ String String::printf(const char* format, ...) {
   va_start(va, format);
   const auto len = vsnprintf(va_out, sizeof(va_out), format, va);
   va_end(va);
-
-  return String(va_out, len);
+  if (len < 0)
+    return String();
+  if (static_cast<size_t>(len) < sizeof(va_out))
+    return String(va_out, len);
+
+  /* Did not fit, format again into a buffer of the right size. */
+  String out(static_cast<size_t>(len));
+  out.resize(len);
+  va_start(va, format);
+  vsnprintf(out.mdata(), len + 1, format, va);
+  va_end(va);
+  return out;
 }
 
 String& String::chomp() noexcept {
-- 
2.43.0


From aa0859a39a5602e820b5cad3796aa79904abb22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:43 +0000
Subject: [PATCH 17/40] fix: Array::join() of empty strings without a delimiter
 asked for an absurd amount of memory

---
 src/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Array.h b/src/Array.h
index 5901e4a..a0831e4 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -157,7 +157,7 @@ class Array : public ReferenceCountedArray<T> {
       size_t str_size = 0, i;
 
       // Preallocate a fully sized String to avoid frequent resizing
-      str_size += (this->length() * delim.length()) - 1;
+      str_size += (this->length() - 1) * delim.length();
       if (quoted)
 	str_size += this->length() * 2;
       for (i = 0; i < this->length(); ++i)
-- 
2.43.0


From 7ca877295aa4e09844c8dc2f3a1e4087262ca66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:43 +0000
Subject: [PATCH 18/40] fix: reading a Stream positioned past its end wrapped
 around

---
 src/Stream.cpp | 2 +-
 src/Stream.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index 4f1d6af..f921c05 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -66,7 +66,7 @@ int Stream::seek(int offset, int whence) {
 }
 
 String Stream::read(size_t maxSize, char delim) {
-  size_t toRead = std::min(maxSize, length() - pos);
+  size_t toRead = pos < length() ? std::min(maxSize, length() - pos) : 0;
 
   /* No need to split the string, return a substring */
   if (!delim) {
diff --git a/src/Stream.h b/src/Stream.h
index 779a13e..a9dede0 100644
--- a/src/Stream.h
+++ b/src/Stream.h
@@ -127,7 +127,7 @@ class Stream {
          * @sa read
          */
         virtual String getline (size_t maxSize = 99999999) {
-          return read(maxSize == 99999999 ? (length() - pos) : maxSize, '\n');
+          return read(maxSize == 99999999 ? length() : maxSize, '\n');
         }
 
         /**
-- 
2.43.0


From c3e7fd2955a637e3003f3eebcfab903382f2889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:49 +0000
Subject: [PATCH 19/40] fix: base64 functions wrote through a null pointer or
 leaked their buffer when memory ran out

b64enc() and b64dec() used malloc()'s result unchecked, and base64Encode() and
base64Decode() lost the buffer when building the returned String threw.
---
 src/base64.cpp | 26 ++++++++++++++++++--------
 src/base64.h   |  4 ++--
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index f1d1d5d..8024690 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -27,6 +27,8 @@
 
 #include <cstdlib>
 #include <cstring>
+#include <memory>
+#include <new>
 #include "base64.h"
 #include "String.h"
 
@@ -102,10 +104,12 @@ void b64enc_buf(const unsigned char *data, size_t *len, char *dest, const char*
 
 String base64Encode(const String& string, const char* charset) {
   size_t len = string.length();
-  char *p = b64enc(reinterpret_cast<const unsigned char*>(string.cbegin()), &len, charset);
-  BDLIB_NS::String encoded(p, len);
-  free(p);
-  return encoded;
+  const std::unique_ptr<char, void(*)(void*)> p(
+      b64enc(reinterpret_cast<const unsigned char*>(string.cbegin()), &len, charset),
+      ::free);
+  if (!p)
+    throw std::bad_alloc();
+  return BDLIB_NS::String(p.get(), len);
 }
 
 char *b64enc(const unsigned char *src, size_t *len, const char* charset)
@@ -113,6 +117,8 @@ char *b64enc(const unsigned char *src, size_t *len, const char* charset)
   /* Take the length and round up the next 4-byte boundary */
   size_t dlen = (((*len + (NUM_ASCII_BYTES - 1)) / NUM_ASCII_BYTES) * NUM_ENCODED_BYTES);
   char *dest = static_cast<char*>(malloc(dlen + 1));
+  if (dest == nullptr)
+    return nullptr;
 
   b64enc_buf(src, len, dest, charset);
   dest[*len] = '\0';
@@ -151,6 +157,8 @@ char *b64dec(const unsigned char *data, size_t *len, const char* charset)
 {
   size_t dlen = ((*len / NUM_ENCODED_BYTES) + ((*len % NUM_ENCODED_BYTES) ? 1 : 0)) * NUM_ASCII_BYTES;
   char *dest = static_cast<char*>(malloc(dlen + 1));
+  if (dest == nullptr)
+    return nullptr;
 
   if (charset) {
     char charset_index[256];
@@ -166,10 +174,12 @@ char *b64dec(const unsigned char *data, size_t *len, const char* charset)
 
 String base64Decode(const String& string, const char* charset) {
   size_t len = string.length();
-  char *p = b64dec(reinterpret_cast<const unsigned char*>(string.cbegin()), &len, charset);
-  BDLIB_NS::String decoded(p, len);
-  free(p);
-  return decoded;
+  const std::unique_ptr<char, void(*)(void*)> p(
+      b64dec(reinterpret_cast<const unsigned char*>(string.cbegin()), &len, charset),
+      ::free);
+  if (!p)
+    throw std::bad_alloc();
+  return BDLIB_NS::String(p.get(), len);
 }
 
 BDLIB_NS_END
diff --git a/src/base64.h b/src/base64.h
index 818ec4a..c5bf1b3 100644
--- a/src/base64.h
+++ b/src/base64.h
@@ -62,7 +62,7 @@ const char b64_indexes[256] = {
   * @param src A c-style string to encode
   * @param len Reference to length of string (to be updated on return)
   * @param charset The charset to use.
-  * @return An encoded NULL-terminated c-style string (must be free()d later)
+  * @return An encoded NULL-terminated c-style string (must be free()d later), or nullptr if out of memory
   */
 char *b64enc(const unsigned char *src, size_t *len, const char* charset = nullptr);
 
@@ -88,7 +88,7 @@ void b64enc_buf(const unsigned char *data, size_t *len, char *dest, const char*
   * @param data A c-style string to decode
   * @param len Reference to length of string (to be updated on return)
   * @param charset The charset to use.
-  * @return A decoded NULL-terminated c-style string (must be free()d later)
+  * @return A decoded NULL-terminated c-style string (must be free()d later), or nullptr if out of memory
   */
 char *b64dec(const unsigned char *data, size_t *len, const char* charset = nullptr);
 
-- 
2.43.0


From b4bda14bb0317c5c42e58f53996aa7687b77d0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:04 +0000
Subject: [PATCH 20/40] fix: script commands were found by the name they were
 called by, in a table shared by all interpreters

Calling a command through a namespace-qualified name, a rename or an alias
created an empty table entry and dereferenced it; deleting or replacing a
command from its own handler, and destroying any other interpreter, released
handlers still in use.  Let the Tcl command own its handler instead.
---
 src/ScriptInterpTCL.cpp |  6 +++---
 src/ScriptInterpTCL.h   | 44 +++++++++++++++++------------------------
 2 files changed, 21 insertions(+), 29 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 5e1c6ca..02e0b2e 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -10,7 +10,6 @@
 
 BDLIB_NS_BEGIN
 
-std::unordered_map<String, ScriptInterp::ScriptCmdPtr>ScriptInterpTCL::CmdHandlerData;
 std::unordered_map<String, ScriptInterp::link_var_hook_t> ScriptInterpTCL::link_var_hooks;
 
 int ScriptInterpTCL::init() {
@@ -65,11 +64,12 @@ ScriptInterp::LoadError ScriptInterpTCL::loadScript(const String& fileName,
 int ScriptInterpTCL::ScriptCmdTCL::_createCommand_callback(
     ClientData clientData, Tcl_Interp *interp, int objc,
     Tcl_Obj *CONST objv[]) {
-  String cmdName(tcl_to_c_cast<String>::from(objv[0], nullptr));
-  ScriptCmdPtr ccd = CmdHandlerData[cmdName];
+  /* The handler may delete or replace its own command: keep it alive. */
+  const ScriptCmdPtr ccd(*static_cast<ScriptCmdPtr*>(clientData));
 
   if ((size_t(objc) - 1) < ccd->callbackParamMin ||
       size_t(objc) - 1 > ccd->callbackParamMax) {
+    String cmdName(tcl_to_c_cast<String>::from(objv[0], nullptr));
     String errorResult(String::printf("Wrong # args. Expected %zu, got %d.",
           ccd->callbackParamMin, objc - 1));
     if (ccd->usage)
diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index 9c4e15e..04becea 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -139,8 +139,6 @@ class ScriptInterpTCL : public ScriptInterp {
       Tcl_Obj* obj, ScriptInterp* si);
   private:
         Tcl_Interp *interp;
-        static std::unordered_map<String, ScriptCmdPtr>
-          CmdHandlerData;
 
         ScriptInterpTCL(const ScriptInterpTCL&) = delete;
         ScriptInterpTCL& operator=(const ScriptInterpTCL&) = delete;
@@ -157,22 +155,8 @@ class ScriptInterpTCL : public ScriptInterp {
               size_t _callbackParamMax) noexcept :
               ScriptCmd(_si, std::move(_cmdName), std::move(_callback_proxy),
                   _usage, _callbackParamMin, _callbackParamMax) {};
-          virtual ~ScriptCmdTCL() {
-            this->unregisterCmd();
-          }
-          virtual void registerCmd() {
-            if (registered)
-              return;
-            Tcl_CreateObjCommand(static_cast<ScriptInterpTCL*>(si)->interp,
-                *cmdName, _createCommand_callback, nullptr, nullptr);
-            ScriptCmd::registerCmd();
-          }
-          virtual void unregisterCmd() {
-            if (!registered)
-              return;
-            Tcl_DeleteCommand(static_cast<ScriptInterpTCL*>(si)->interp,
-                *cmdName);
-            ScriptCmd::unregisterCmd();
+          static void _deleteCommand_callback(ClientData clientData) {
+            delete static_cast<ScriptCmdPtr*>(clientData);
           }
         };
 
@@ -180,11 +164,15 @@ class ScriptInterpTCL : public ScriptInterp {
             std::unique_ptr<ScriptCommandHandlerBase> callback_proxy,
             const char* usage,
             size_t callbackParamMin, size_t callbackParamMax) {
-          auto ccd = std::make_shared<ScriptCmdTCL>(this, cmdName,
-              std::move(callback_proxy), usage, callbackParamMin,
-              callbackParamMax);
-          CmdHandlerData[cmdName] = ccd;
-          ccd->registerCmd();
+          /* Owned by the Tcl command, under whatever name it goes. */
+          auto ccd = std::make_unique<ScriptCmdPtr>(
+              std::make_shared<ScriptCmdTCL>(this, cmdName,
+                std::move(callback_proxy), usage, callbackParamMin,
+                callbackParamMax));
+          if (Tcl_CreateObjCommand(interp, *cmdName,
+                ScriptCmdTCL::_createCommand_callback, ccd.get(),
+                ScriptCmdTCL::_deleteCommand_callback))
+            ccd.release();
         }
 
         struct trace_ptr_data {
@@ -289,10 +277,9 @@ class ScriptInterpTCL : public ScriptInterp {
           init();
         }
         virtual ~ScriptInterpTCL() {
-          CmdHandlerData.clear();
+          destroy();
           link_var_hooks.clear();
           trace_ptrs.clear();
-          destroy();
         }
 
         virtual String eval(const String& script);
@@ -310,7 +297,12 @@ class ScriptInterpTCL : public ScriptInterp {
         }
 
         virtual void deleteCommand(const String& cmdName) {
-          CmdHandlerData.erase(cmdName);
+          Tcl_CmdInfo info;
+          const Tcl_Command cmd = Tcl_FindCommand(interp, *cmdName, nullptr,
+              TCL_GLOBAL_ONLY);
+          if (cmd && Tcl_GetCommandInfoFromToken(cmd, &info) &&
+              info.objProc == ScriptCmdTCL::_createCommand_callback)
+            Tcl_DeleteCommandFromToken(interp, cmd);
         }
 
         /* Variable linking */
-- 
2.43.0


From 1bef3738ec7ef598abcd6e26148ff24b2aa29d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:26 +0000
Subject: [PATCH 21/40] fix: a command with a void handler gave the script the
 result of the handler's last eval()

---
 src/ScriptInterpTCLCallbacks.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ScriptInterpTCLCallbacks.h b/src/ScriptInterpTCLCallbacks.h
index 6bec1e9..db60b01 100644
--- a/src/ScriptInterpTCLCallbacks.h
+++ b/src/ScriptInterpTCLCallbacks.h
@@ -25,6 +25,8 @@ struct ScriptCallbackDispatchTCL<void, Params...> {
   static inline void dispatch(Tcl_Interp* interp, function_t callback,
       Params&&... args) {
     callback(std::forward<Params>(args)...);
+    /* Drop the result of anything the handler evaluated. */
+    Tcl_ResetResult(interp);
   }
 };
 
-- 
2.43.0


From 7f7b13396d24fffdb71211fea8c4d7f5a638bf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:32 +0000
Subject: [PATCH 22/40] fix: parameters of a script callback were evaluated as
 script text

A parameter holding a double quote, $, [, or \ was substituted, ran commands
or broke the call; pass the parameters as a Tcl list.
---
 src/ScriptInterpTCL.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index 04becea..1f22fa0 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -126,8 +126,12 @@ class ScriptCallbackerTCL : public ScriptCallbacker {
       ScriptCallbacker(_si, _cmd) {};
     virtual ~ScriptCallbackerTCL() {};
     inline virtual String call(const Array<String>& params = Array<String>()) {
-      return si->eval(String::printf("%s %s", cmd.c_str(),
-            params.join(" ", true).c_str()));
+      /* Each parameter must arrive as one word, whatever it contains. */
+      const std::unique_ptr<Tcl_Obj, void(*)(Tcl_Obj*)> args(
+          c_to_tcl_cast<const Array<String>&>::from(params, nullptr),
+          [](Tcl_Obj* obj) { Tcl_DecrRefCount(obj); });
+      return si->eval(cmd + " " +
+          tcl_to_c_cast<String>::from(args.get(), si));
     }
 
 };
-- 
2.43.0


From f825de24161d1c8f52ccfb006cc35275cfb0dbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:27 +0000
Subject: [PATCH 23/40] fix: reporting a wrong number of arguments could throw
 through the Tcl interpreter

So could reporting an unhandled exception: both allocate.
---
 src/ScriptInterpTCL.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 02e0b2e..c9410f4 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -67,20 +67,21 @@ int ScriptInterpTCL::ScriptCmdTCL::_createCommand_callback(
   /* The handler may delete or replace its own command: keep it alive. */
   const ScriptCmdPtr ccd(*static_cast<ScriptCmdPtr*>(clientData));
 
-  if ((size_t(objc) - 1) < ccd->callbackParamMin ||
-      size_t(objc) - 1 > ccd->callbackParamMax) {
-    String cmdName(tcl_to_c_cast<String>::from(objv[0], nullptr));
-    String errorResult(String::printf("Wrong # args. Expected %zu, got %d.",
-          ccd->callbackParamMin, objc - 1));
-    if (ccd->usage)
-      errorResult += String::printf(" Should be \"%s %s\"", cmdName.c_str(),
-          ccd->usage);
-    Tcl_SetObjResult(interp,
-        c_to_tcl_cast<const String&>::from(errorResult, interp));
-    return TCL_ERROR;
-  }
-
+  /* Nothing may be thrown through the interpreter. */
   try {
+    if ((size_t(objc) - 1) < ccd->callbackParamMin ||
+        size_t(objc) - 1 > ccd->callbackParamMax) {
+      String cmdName(tcl_to_c_cast<String>::from(objv[0], nullptr));
+      String errorResult(String::printf("Wrong # args. Expected %zu, got %d.",
+            ccd->callbackParamMin, objc - 1));
+      if (ccd->usage)
+        errorResult += String::printf(" Should be \"%s %s\"",
+            cmdName.c_str(), ccd->usage);
+      Tcl_SetObjResult(interp,
+          c_to_tcl_cast<const String&>::from(errorResult, interp));
+      return TCL_ERROR;
+    }
+
     ccd->callback_proxy->call(objc, reinterpret_cast<void* CONST*>(objv),
         ccd->si, interp);
   } catch (BDLIB_NS::String& e) {
@@ -88,8 +89,7 @@ int ScriptInterpTCL::ScriptCmdTCL::_createCommand_callback(
         c_to_tcl_cast<const String&>::from(e, interp));
     return TCL_ERROR;
   } catch (...) {
-    Tcl_SetObjResult(interp,
-        c_to_tcl_cast<const char*>::from("Unhandled exception.", interp));
+    Tcl_SetObjResult(interp, Tcl_NewStringObj("Unhandled exception.", -1));
     return TCL_ERROR;
   }
   return TCL_OK;
-- 
2.43.0


From 5d07666f557f717a3c8ac5bf0646615d689fa6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:22 +0000
Subject: [PATCH 24/40] fix: unsigned values reached scripts as negative
 numbers and uint64_t never reached the host

---
 src/ScriptInterpTCL.cpp |  5 ++++-
 src/ScriptInterpTCL.h   | 12 +++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index c9410f4..6d61469 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -274,7 +274,10 @@ int64_t tcl_to_c_cast<int64_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 uint64_t tcl_to_c_cast<uint64_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  double d = 0;
+  /* Tcl_GetLongFromObj() takes values up to ULONG_MAX, of either sign. */
+  if (Tcl_GetLongFromObj(0, obj, &v) != TCL_OK ||
+      Tcl_GetDoubleFromObj(0, obj, &d) != TCL_OK || d < 0) {
     return 0;
     //return "Type Error";
   }
diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index 1f22fa0..7e42e7b 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -35,6 +35,7 @@
 #include <type_traits>
 #include <cstddef>
 #include <cstdint>
+#include <cstdio>
 #include <limits.h>
 #include <sys/types.h>
 
@@ -389,7 +390,7 @@ inline Tcl_Obj* c_to_tcl_cast<const int8_t&>::from(const int8_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint8_t&>::from(const uint8_t& value,
     Tcl_Interp* interp) {
-  return c_to_tcl_cast<const int8_t&>::from(value, interp);
+  return c_to_tcl_cast<const int16_t&>::from(value, interp);
 }
 
 inline Tcl_Obj* c_to_tcl_cast<const int16_t&>::from(const int16_t& value,
@@ -399,7 +400,7 @@ inline Tcl_Obj* c_to_tcl_cast<const int16_t&>::from(const int16_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint16_t&>::from(const uint16_t& value,
     Tcl_Interp* interp) {
-  return c_to_tcl_cast<const int16_t&>::from(value, interp);
+  return c_to_tcl_cast<const int32_t&>::from(value, interp);
 }
 
 inline Tcl_Obj* c_to_tcl_cast<const int32_t&>::from(const int32_t& value,
@@ -409,7 +410,7 @@ inline Tcl_Obj* c_to_tcl_cast<const int32_t&>::from(const int32_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint32_t&>::from(const uint32_t& value,
     Tcl_Interp* interp) {
-  return c_to_tcl_cast<const int32_t&>::from(value, interp);
+  return c_to_tcl_cast<const int64_t&>::from(value, interp);
 }
 
 inline Tcl_Obj* c_to_tcl_cast<const int64_t&>::from(const int64_t& value,
@@ -419,6 +420,11 @@ inline Tcl_Obj* c_to_tcl_cast<const int64_t&>::from(const int64_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint64_t&>::from(const uint64_t& value,
     Tcl_Interp* interp) {
+  if (value > uint64_t(INT64_MAX)) {
+    char buf[24];
+    return Tcl_NewStringObj(buf, snprintf(buf, sizeof(buf), "%ju",
+          uintmax_t(value)));
+  }
   return c_to_tcl_cast<const int64_t&>::from(value, interp);
 }
 
-- 
2.43.0


From 776b58c2a1dacfe15721f329f82e512e0e154a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:17 +0000
Subject: [PATCH 25/40] fix: linked variables lost writes, ran wrong hooks and
 overran buffers

Hooks were found by the name the script happened to use, in a table shared by
all interpreters; linking a name again emptied the variable it was linked to
before; copying to a character buffer read past the end of the value;
array elements could not be written; and an exception went through the
interpreter, leaving the variable moved from.  Keep one record per link and
give it to the traces.
---
 src/ScriptInterpTCL.cpp |  35 +++++++------
 src/ScriptInterpTCL.h   | 108 ++++++++++++++++++++++------------------
 2 files changed, 80 insertions(+), 63 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 6d61469..93e66cc 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -10,8 +10,6 @@
 
 BDLIB_NS_BEGIN
 
-std::unordered_map<String, ScriptInterp::link_var_hook_t> ScriptInterpTCL::link_var_hooks;
-
 int ScriptInterpTCL::init() {
   // create interp
   interp = Tcl_CreateInterp();
@@ -95,13 +93,25 @@ int ScriptInterpTCL::ScriptCmdTCL::_createCommand_callback(
   return TCL_OK;
 }
 
-void ScriptInterpTCL::setupTraces(const String& varName, ClientData var,
-    Tcl_VarTraceProc* get, Tcl_VarTraceProc* set, link_var_hook_t hook_func) {
+void ScriptInterpTCL::setupTraces(const String& varName, const void* var,
+    size_t size, Tcl_VarTraceProc* get, Tcl_VarTraceProc* set,
+    link_var_hook_t hook_func) {
+  auto data = std::make_unique<trace_ptr_data>(const_cast<void*>(var), size,
+      get, set, hook_func);
+  auto& link = trace_ptrs[varName];
+  if (link) {
+    /* Setting the variable up must not write to what it was linked to. */
+    Tcl_UntraceVar(interp, *varName, TCL_TRACE_READS | TCL_GLOBAL_ONLY,
+        link->get, link.get());
+    Tcl_UntraceVar(interp, *varName, TCL_TRACE_WRITES | TCL_GLOBAL_ONLY,
+        link->set, link.get());
+  }
+  link = std::move(data);
   Tcl_SetVar(interp, *varName, "", TCL_GLOBAL_ONLY);
-  Tcl_TraceVar(interp, *varName, TCL_TRACE_READS | TCL_GLOBAL_ONLY, get, var);
-  Tcl_TraceVar(interp, *varName, TCL_TRACE_WRITES | TCL_GLOBAL_ONLY, set, var);
-  if (hook_func != nullptr)
-    link_var_hooks[varName] = hook_func;
+  Tcl_TraceVar(interp, *varName, TCL_TRACE_READS | TCL_GLOBAL_ONLY, get,
+      link.get());
+  Tcl_TraceVar(interp, *varName, TCL_TRACE_WRITES | TCL_GLOBAL_ONLY, set,
+      link.get());
 }
 
 const char* ScriptInterpTCL::TraceSetRO(const ClientData clientData,
@@ -113,8 +123,8 @@ const char* ScriptInterpTCL::TraceSetRO(const ClientData clientData,
 const char* ScriptInterpTCL::TraceGet(Tcl_Obj* value, Tcl_Interp *interp,
     char *name1, char *name2, int flags) {
   if (value) {
-    Tcl_SetVar2(interp,name1,name2,
-        tcl_to_c_cast<const char*>::from(value, nullptr), flags);
+    Tcl_IncrRefCount(value);
+    Tcl_SetVar2Ex(interp, name1, name2, value, flags);
     Tcl_DecrRefCount(value);
   }
   return nullptr;
@@ -122,10 +132,7 @@ const char* ScriptInterpTCL::TraceGet(Tcl_Obj* value, Tcl_Interp *interp,
 
 Tcl_Obj* ScriptInterpTCL::TraceSet(Tcl_Interp *interp, char *name1,
     char *name2, int flags) {
-  Tcl_Obj *name1o = c_to_tcl_cast<const char*>::from(name1, interp);
-  Tcl_Obj *value = Tcl_ObjGetVar2(interp, name1o, 0, flags);
-  Tcl_DecrRefCount(name1o);
-  return value;
+  return Tcl_GetVar2Ex(interp, name1, name2, flags);
 }
 
 Tcl_Obj* c_to_tcl_cast<const Array<String>&>::from(const Array<String>& array,
diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index 7e42e7b..a448099 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -36,6 +36,8 @@
 #include <cstddef>
 #include <cstdint>
 #include <cstdio>
+#include <cstring>
+#include <algorithm>
 #include <limits.h>
 #include <sys/types.h>
 
@@ -183,13 +185,18 @@ class ScriptInterpTCL : public ScriptInterp {
         struct trace_ptr_data {
           void* ptr;
           size_t size;
-          trace_ptr_data(void* _ptr, size_t _size) : ptr(_ptr), size(_size) {};
+          Tcl_VarTraceProc* get;
+          Tcl_VarTraceProc* set;
+          link_var_hook_t hook;
+          trace_ptr_data(void* _ptr, size_t _size, Tcl_VarTraceProc* _get,
+              Tcl_VarTraceProc* _set, link_var_hook_t _hook) :
+            ptr(_ptr), size(_size), get(_get), set(_set), hook(_hook) {};
           trace_ptr_data(const trace_ptr_data&) = delete;
           trace_ptr_data& operator=(const trace_ptr_data&) = delete;
         };
         std::unordered_map<String, std::unique_ptr<trace_ptr_data>> trace_ptrs;
 
-        void setupTraces(const String& name, ClientData var,
+        void setupTraces(const String& name, const void* var, size_t size,
             Tcl_VarTraceProc* get, Tcl_VarTraceProc* set,
             link_var_hook_t hook_func);
 
@@ -199,24 +206,22 @@ class ScriptInterpTCL : public ScriptInterp {
         template<typename T>
         static inline const char* tcl_traceGet(ClientData clientData,
             Tcl_Interp* interp, char* name1, char* name2, int flags) {
-          return TraceGet(
-              c_to_tcl_cast<T&>::from(*static_cast<T*>(clientData), interp),
-              interp, name1, name2, flags);
-        }
-        template<typename T>
-        static inline const char* tcl_traceGetPtrData(ClientData clientData,
-            Tcl_Interp* interp, char* name1, char* name2, int flags) {
           auto data = static_cast<const trace_ptr_data*>(clientData);
           return TraceGet(
-              c_to_tcl_cast<T>::from(static_cast<T>(data->ptr),
-                interp), interp, name1, name2, flags);
+              c_to_tcl_cast<T&>::from(*static_cast<T*>(data->ptr), interp),
+              interp, name1, name2, flags);
         }
         template<typename T>
         static inline const char* tcl_traceGetPtr(ClientData clientData,
             Tcl_Interp* interp, char* name1, char* name2, int flags) {
-          return TraceGet(
-              c_to_tcl_cast<T>::from(static_cast<T>(clientData),
-                interp), interp, name1, name2, flags);
+          auto data = static_cast<const trace_ptr_data*>(clientData);
+          try {
+            return TraceGet(
+                c_to_tcl_cast<T>::from(static_cast<T>(data->ptr),
+                  interp), interp, name1, name2, flags);
+          } catch (...) {
+            return "Unhandled exception.";
+          }
         }
 
         template<typename T>
@@ -226,14 +231,20 @@ class ScriptInterpTCL : public ScriptInterp {
               flags);
           if (!obj)
             return name1;
-          const auto oldval(std::move(*static_cast<T*>(clientData)));
-
-          *static_cast<T*>(clientData) =
-            std::move(tcl_to_c_cast<T>::from(obj, nullptr));
-          const auto link_var_hook = link_var_hooks.find(name1);
-          if (link_var_hook != std::end(link_var_hooks))
-            link_var_hook->second(
-                (const void*)&oldval, (const void*)(clientData));
+          /* The hook may unlink or relink the variable. */
+          const auto data = static_cast<const trace_ptr_data*>(clientData);
+          const auto var = static_cast<T*>(data->ptr);
+          const auto hook = data->hook;
+          try {
+            T newval(tcl_to_c_cast<T>::from(obj, nullptr));
+            const T oldval(std::move(*var));
+
+            *var = std::move(newval);
+            if (hook != nullptr)
+              hook((const void*)&oldval, (const void*)var);
+          } catch (...) {
+            return "Unhandled exception.";
+          }
           return nullptr;
         }
 
@@ -244,24 +255,28 @@ class ScriptInterpTCL : public ScriptInterp {
               flags);
           if (!obj)
             return name1;
-          const auto link_var_hook = link_var_hooks.find(name1);
-          auto data = static_cast<const trace_ptr_data*>(clientData);
-          /* Save oldval */
-          typedef typename std::pointer_traits<T>::element_type T_name;
-          std::unique_ptr<T_name[]> oldval;
-          if (link_var_hook != std::end(link_var_hooks)) {
-            oldval = std::move(std::make_unique<T_name[]>(data->size));
-            memcpy(oldval.get(), static_cast<T>(data->ptr), data->size);
+          /* The hook may unlink or relink the variable. */
+          const auto data = static_cast<const trace_ptr_data*>(clientData);
+          const auto var = static_cast<T>(data->ptr);
+          const auto size = data->size;
+          const auto hook = data->hook;
+          try {
+            /* Save oldval */
+            typedef typename std::pointer_traits<T>::element_type T_name;
+            std::unique_ptr<T_name[]> oldval;
+            if (hook != nullptr) {
+              oldval = std::move(std::make_unique<T_name[]>(size));
+              memcpy(oldval.get(), var, size);
+            }
+
+            const auto newval = tcl_to_c_cast<T>::from(obj, nullptr);
+            memmove(var, newval, std::min(size, strlen(newval) + 1));
+            var[size - 1] = '\0';
+            if (hook != nullptr)
+              hook((const void*)(oldval.get()), (const void*)var);
+          } catch (...) {
+            return "Unhandled exception.";
           }
-
-          memmove(data->ptr, tcl_to_c_cast<T>::from(obj, nullptr),
-              data->size);
-          if __CPP17_IFCONSTEXPR (std::is_same<T, char*>::value ||
-              std::is_same<T, const char*>::value)
-            static_cast<T>(data->ptr)[data->size - 1] = '\0';
-          if (link_var_hook != std::end(link_var_hooks))
-            link_var_hook->second(
-                (const void*)(oldval.get()), (const void*)(data->ptr));
           return nullptr;
         }
 
@@ -275,7 +290,6 @@ class ScriptInterpTCL : public ScriptInterp {
   protected:
         virtual int init();
         virtual int destroy();
-        static std::unordered_map<String, link_var_hook_t> link_var_hooks;
 
   public:
         ScriptInterpTCL() : ScriptInterp(), interp(nullptr), trace_ptrs() {
@@ -283,7 +297,6 @@ class ScriptInterpTCL : public ScriptInterp {
         }
         virtual ~ScriptInterpTCL() {
           destroy();
-          link_var_hooks.clear();
           trace_ptrs.clear();
         }
 
@@ -320,7 +333,7 @@ class ScriptInterpTCL : public ScriptInterp {
         template <typename T>
         inline void linkVar(const String& varName, T& var,
             link_var_hook_t hook_func = nullptr) {
-          setupTraces(varName, (ClientData) &var,
+          setupTraces(varName, &var, sizeof(var),
               (Tcl_VarTraceProc*) tcl_traceGet<const T>,
               (Tcl_VarTraceProc*) tcl_traceSet<T>, hook_func);
         }
@@ -333,11 +346,9 @@ class ScriptInterpTCL : public ScriptInterp {
         template <typename T>
         inline void linkVar(const String& varName, T* var, size_t size,
             link_var_hook_t hook_func = nullptr) {
-          auto data = std::make_unique<trace_ptr_data>(var, size);
-          setupTraces(varName, (ClientData) data.get(),
-              (Tcl_VarTraceProc*) tcl_traceGetPtrData<const T*>,
+          setupTraces(varName, var, size,
+              (Tcl_VarTraceProc*) tcl_traceGetPtr<const T*>,
               (Tcl_VarTraceProc*) tcl_traceSetPtr<T*>, hook_func);
-          trace_ptrs[varName] = std::move(data);
         }
 
         /**
@@ -349,7 +360,7 @@ class ScriptInterpTCL : public ScriptInterp {
         template <typename T>
         inline void linkVar(const String& varName, const T* var,
             link_var_hook_t hook_func = nullptr) {
-          setupTraces(varName, (ClientData) var,
+          setupTraces(varName, var, sizeof(*var),
               (Tcl_VarTraceProc*) tcl_traceGetPtr<const T*>,
               (Tcl_VarTraceProc*) TraceSetRO, hook_func);
         }
@@ -363,7 +374,7 @@ class ScriptInterpTCL : public ScriptInterp {
         template <typename T>
         inline void linkVar(const String& varName, const T& var,
             link_var_hook_t hook_func = nullptr) {
-          setupTraces(varName, (ClientData) &var,
+          setupTraces(varName, &var, sizeof(var),
               (Tcl_VarTraceProc*) tcl_traceGet<const T>,
               (Tcl_VarTraceProc*) TraceSetRO, hook_func);
         }
@@ -374,7 +385,6 @@ class ScriptInterpTCL : public ScriptInterp {
          */
         virtual void unlinkVar(const String& varName) {
           Tcl_UnsetVar(interp, *varName, TCL_GLOBAL_ONLY);
-          link_var_hooks.erase(varName);
           trace_ptrs.erase(varName);
         }
 
-- 
2.43.0


From 0fdcc1e6724d5ae218ee4bddc303a52dab469816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:46 +0000
Subject: [PATCH 26/40] fix: eval() returned a stale error for a nested
 "return" and recursed for ever once a script replaced set

---
 src/ScriptInterpTCL.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 93e66cc..3651d57 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -36,12 +36,18 @@ int ScriptInterpTCL::destroy() {
 }
 
 inline String ScriptInterpTCL::eval(const String& script) {
-  if (Tcl_EvalEx(interp, script.c_str(), script.length(),
-        TCL_EVAL_GLOBAL) == TCL_OK) {
-    Tcl_Obj* value = Tcl_GetObjResult(interp);
-    return tcl_to_c_cast<String>::from(value, this);
+  const int code = Tcl_EvalEx(interp, script.c_str(), script.length(),
+      TCL_EVAL_GLOBAL);
+  Tcl_Obj* value = Tcl_GetObjResult(interp);
+  /* Anything else has a result: "return" gives TCL_RETURN when nested. */
+  if (code == TCL_ERROR) {
+    /* Not by another eval: the script may have replaced the command. */
+    Tcl_Obj* errorInfo = Tcl_GetVar2Ex(interp, "errorInfo", nullptr,
+        TCL_GLOBAL_ONLY);
+    if (errorInfo)
+      value = errorInfo;
   }
-  return eval("set errorInfo");
+  return tcl_to_c_cast<String>::from(value, this);
 }
 
 ScriptInterp::LoadError ScriptInterpTCL::loadScript(const String& fileName,
-- 
2.43.0


From 1bbb97ceae731217f5600e4c42dd5a571dbabfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:03 +0000
Subject: [PATCH 27/40] fix: slicing with a negative length that stops before
 the start gave a huge length

---
 src/ReferenceCountedArray.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 94f8ef5..cf29407 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -1003,7 +1003,10 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
         len = length() - start;
       // If the length is negative, stop from counting backwards from the end
       else if (len < 0)
-        len = length() - start + len;
+        len = static_cast<ssize_t>(length()) - start + len;
+      // It stops before the start, nothing is left
+      if (len < 0)
+        len = 0;
       setLength(len);
     }
 
-- 
2.43.0


From c5d55b7c145863561c96cf0100b12e45bc0847cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:14 +0000
Subject: [PATCH 28/40] fix: hash() of an Array sharing its buffer raced with
 other holders copying its elements

---
 src/ReferenceCountedArray.h | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index cf29407..e9d3fc8 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -335,8 +335,25 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
     /**
      * Cache of current hash() result. 0 if stale
-     */
-    mutable size_t my_hash = 0;
+     * This is atomic as hash() of an array sharing its buffer fills in the
+     * caches of the elements, which others may be copying meanwhile.
+     */
+    struct hash_cache {
+      std::atomic<size_t> value;
+      hash_cache(size_t _value = 0) noexcept : value(_value) {};
+      hash_cache(const hash_cache& other) noexcept : value(size_t(other)) {};
+      hash_cache& operator=(const hash_cache& other) noexcept {
+        return *this = size_t(other);
+      }
+      hash_cache& operator=(size_t _value) noexcept {
+        value.store(_value, std::memory_order_relaxed);
+        return *this;
+      }
+      operator size_t() const noexcept {
+        return value.load(std::memory_order_relaxed);
+      }
+    };
+    mutable hash_cache my_hash;
 
   private:
     /**
@@ -807,13 +824,15 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @note DJB's hash function
      */
     size_t hash() const noexcept {
-      if (my_hash != 0) return my_hash;
+      const size_t cached = my_hash;
+      if (cached != 0) return cached;
       std::hash<value_type> hasher;
       size_t _hash = 5381;
 
       for(size_t i = 0; i < length(); ++i)
         _hash = ((_hash << 5) + _hash) + hasher(*constBuf(i));
-      return (my_hash = (_hash & 0x7FFFFFFF));
+      my_hash = (_hash &= 0x7FFFFFFF);
+      return _hash;
     }
 
   private:
-- 
2.43.0


From 45e18778aa03e34bf4a68a8042f555daa6897401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:15 +0000
Subject: [PATCH 29/40] fix: a read from a Stream up to a delimiter lost its
 data when memory ran out

---
 src/Stream.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index f921c05..693ac9c 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -77,14 +77,16 @@ String Stream::read(size_t maxSize, char delim) {
 
   /* Must reconstruct a new string */
   String ret(toRead);
+  size_t newpos = pos; // Only advance once nothing can fail anymore
 
-  while ((ret.length() < toRead) && (str[pos] != delim)) {
-    ret += str[pos++];
+  while ((ret.length() < toRead) && (str[newpos] != delim)) {
+    ret += str[newpos++];
   }
-  if (str.size() > pos && str[pos] == delim) {
+  if (str.size() > newpos && str[newpos] == delim) {
     ret += delim;
-    ++pos;
+    ++newpos;
   }
+  pos = newpos;
 
   return ret;
 }
-- 
2.43.0


From 4e449a9f878f320b3b8833b3dd00089f22304a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:21 +0000
Subject: [PATCH 30/40] fix: String::c_str() ended the process when memory ran
 out

---
 src/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/String.h b/src/String.h
index 48a51fd..0a4efb4 100755
--- a/src/String.h
+++ b/src/String.h
@@ -232,7 +232,7 @@ class String : public ReferenceCountedArray<String_Array_Type> {
 	 * @post There is a '\\0' at the end of the buffer.
 	 * @post The actual String size is unchanged.
 	 */
-        const char* c_str() const noexcept {
+        const char* c_str() const {
           if (length() == 0)
             return "";
           assert(constBuf() != nullptr);
@@ -270,7 +270,7 @@ class String : public ReferenceCountedArray<String_Array_Type> {
         /**
          * @sa c_str()
          */
-        inline const char* operator*() const noexcept { return c_str(); };
+        inline const char* operator*() const { return c_str(); };
 
         /**
          * @sa c_str()
-- 
2.43.0


From 43e0c76baa139fa847de5221d8fc21fc79bffeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:17 +0000
Subject: [PATCH 31/40] fix: AtomicFile::commit() running out of memory left
 its closed descriptor behind

---
 src/AtomicFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/AtomicFile.cpp b/src/AtomicFile.cpp
index 042da89..812c098 100644
--- a/src/AtomicFile.cpp
+++ b/src/AtomicFile.cpp
@@ -42,6 +42,8 @@ bool AtomicFile::open(const String& fname, mode_t mode) {
   abort();
 
   _fname = fname;
+  /* Terminate it now so that commit() cannot run out of memory. */
+  _fname.c_str();
   _mode = mode;
 
   /*
-- 
2.43.0


From 3c046aa8ccaf050e2561a1f4049e074ce5625660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:50 +0000
Subject: [PATCH 32/40] fix: linking a variable under another spelling of its
 name kept the old link alive

linkVar("x") followed by linkVar("::x") emptied the first host variable and
kept both connected, as the old link was only looked up by its exact text.
---
 src/ScriptInterpTCL.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 3651d57..86024cf 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -105,12 +105,17 @@ void ScriptInterpTCL::setupTraces(const String& varName, const void* var,
   auto data = std::make_unique<trace_ptr_data>(const_cast<void*>(var), size,
       get, set, hook_func);
   auto& link = trace_ptrs[varName];
-  if (link) {
-    /* Setting the variable up must not write to what it was linked to. */
+  /*
+   * Setting the variable up must not write to what it was linked to, under
+   * this or another spelling of its name.
+   */
+  for (const auto& other : trace_ptrs) {
+    if (!other.second)
+      continue;
     Tcl_UntraceVar(interp, *varName, TCL_TRACE_READS | TCL_GLOBAL_ONLY,
-        link->get, link.get());
+        other.second->get, other.second.get());
     Tcl_UntraceVar(interp, *varName, TCL_TRACE_WRITES | TCL_GLOBAL_ONLY,
-        link->set, link.get());
+        other.second->set, other.second.get());
   }
   link = std::move(data);
   Tcl_SetVar(interp, *varName, "", TCL_GLOBAL_ONLY);
-- 
2.43.0


From 34f5ac90573e7edec4eec0002b66a29093deffe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:50 +0000
Subject: [PATCH 33/40] fix: writing to a linked Array dereferenced a null
 interpreter

---
 src/ScriptInterpTCL.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 86024cf..a47ec62 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -340,7 +340,9 @@ Array<String> tcl_to_c_cast<Array<String>>::from(Tcl_Obj* obj,
   Tcl_Obj** objv;
 
   // FIXME: Exception
-  if (Tcl_ListObjGetElements((reinterpret_cast<ScriptInterpTCL*>(si))->interp,
+  // Writes to a linked variable come without an interp.
+  if (Tcl_ListObjGetElements(
+        si ? reinterpret_cast<ScriptInterpTCL*>(si)->interp : nullptr,
         obj, &objc, &objv) != TCL_OK)
     return Array<String>();
 
@@ -358,7 +360,9 @@ Array<Array<String>> tcl_to_c_cast<Array<Array<String>>>::from(Tcl_Obj* obj,
   Tcl_Obj** objv;
 
   // FIXME: Exception
-  if (Tcl_ListObjGetElements((reinterpret_cast<ScriptInterpTCL*>(si))->interp,
+  // Writes to a linked variable come without an interp.
+  if (Tcl_ListObjGetElements(
+        si ? reinterpret_cast<ScriptInterpTCL*>(si)->interp : nullptr,
         obj, &objc, &objv) != TCL_OK)
     return Array<Array<String>>();
 
-- 
2.43.0


From 5d5969a796d8c3e0020761684e68ae4397343d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:35 +0000
Subject: [PATCH 34/40] fix: shift() and pop() of a temporary Array took the
 element from its other holders

---
 src/Array.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/Array.h b/src/Array.h
index a0831e4..87cc85e 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -115,10 +115,8 @@ class Array : public ReferenceCountedArray<T> {
       return temp;
     }
 
-    inline value_type shift() && noexcept {
-      assert(!this->isEmpty());
-      assert(!this->isShared());
-      return std::move(*(this->Buf(0)));
+    inline value_type shift() && {
+      return this->shift(); // as an lvalue; the buffer may still be shared
     }
 
     /**
@@ -134,10 +132,8 @@ class Array : public ReferenceCountedArray<T> {
       return temp;
     }
 
-    inline value_type pop() && noexcept {
-      assert(!this->isEmpty());
-      assert(!this->isShared());
-      return std::move(this->back());
+    inline value_type pop() && {
+      return this->pop(); // as an lvalue; the buffer may still be shared
     }
 
     /**
-- 
2.43.0


From 817a1f25117cb7280ec4f6bd6e196c466bb1b6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:35 +0000
Subject: [PATCH 35/40] fix: adding part of a String to itself by pointer read
 released memory

---
 src/String.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/String.cpp b/src/String.cpp
index 90db25c..51a6a22 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -122,6 +122,12 @@ void String::insert(size_t pos, const char *string, size_t n)
   
   const auto slen = (n == npos) ? std::strlen(string) : n;
 
+  /* The characters may be our own, which are about to move */
+  if (string >= real_begin() && string < real_begin() + capacity()) {
+    insert(pos, String(string, slen));
+    return;
+  }
+
   AboutToModify(length() + slen);
   /* Shift right */
   std::move_backward(constBuf(pos), constBuf(length()), Buf(length() + slen));
@@ -142,6 +148,13 @@ void String::replace(size_t pos, const char *string, size_t n)
     validateIndex(pos - 1);
 
   const auto slen = (n == npos) ? std::strlen(string) : n;
+
+  /* The characters may be our own, which are about to move */
+  if (string >= real_begin() && string < real_begin() + capacity()) {
+    replace(pos, String(string, slen));
+    return;
+  }
+
   auto newlen = pos + slen;
 
   if (newlen < length())
-- 
2.43.0


From feaea5de32a738638456607b94042a4292f3ff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:35 +0000
Subject: [PATCH 36/40] fix: integers from scripts beyond the signed range
 wrapped around

---
 src/ScriptInterpTCL.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index a47ec62..028ad45 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -171,6 +171,17 @@ Tcl_Obj* c_to_tcl_cast<const Array<Array<String>>&>::from(
 }
 
 /* tcl->c casting */
+/**
+ * @brief Tcl_GetLongFromObj() takes values up to ULONG_MAX, of either sign, and
+ * wraps them around. Only take those that fit.
+ */
+static bool getLong(Tcl_Obj* obj, long& v) {
+  double d = 0;
+  return Tcl_GetLongFromObj(nullptr, obj, &v) == TCL_OK &&
+    Tcl_GetDoubleFromObj(nullptr, obj, &d) == TCL_OK &&
+    (d < 0) == (v < 0);
+}
+
 String tcl_to_c_cast<String>::from(Tcl_Obj* obj, ScriptInterp* si) {
   int len = 0;
   char *cstr = Tcl_GetStringFromObj(obj, &len);
@@ -199,7 +210,7 @@ const char* tcl_to_c_cast<const char*>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 int8_t tcl_to_c_cast<int8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLong(obj, v)) {
     if ((v < INT8_MIN || v > INT8_MAX)) {
       //return "OverflowError";
       return 0;
@@ -213,7 +224,7 @@ int8_t tcl_to_c_cast<int8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 uint8_t tcl_to_c_cast<uint8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLong(obj, v)) {
     if ((v < 0 || v > UINT8_MAX)) {
       //return "OverflowError";
       return 0;
@@ -227,7 +238,7 @@ uint8_t tcl_to_c_cast<uint8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 int16_t tcl_to_c_cast<int16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLong(obj, v)) {
     if ((v < INT16_MIN || v > INT16_MAX)) {
       //return "OverflowError";
       return 0;
@@ -241,7 +252,7 @@ int16_t tcl_to_c_cast<int16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 uint16_t tcl_to_c_cast<uint16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLong(obj, v)) {
     if ((v < 0 || v > UINT16_MAX)) {
       //return "OverflowError";
       return 0;
@@ -255,7 +266,7 @@ uint16_t tcl_to_c_cast<uint16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 int32_t tcl_to_c_cast<int32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLong(obj, v)) {
     if ((v < INT32_MIN || v > INT32_MAX)) {
       //return "OverflowError";
       return 0;
@@ -269,7 +280,7 @@ int32_t tcl_to_c_cast<int32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 uint32_t tcl_to_c_cast<uint32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLong(obj, v)) {
     if ((v < 0 || v > UINT32_MAX)) {
       //return "OverflowError";
       return 0;
@@ -283,7 +294,7 @@ uint32_t tcl_to_c_cast<uint32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 int64_t tcl_to_c_cast<int64_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) != TCL_OK) {
+  if (!getLong(obj, v)) {
     return 0;
     //return "Type Error";
   }
-- 
2.43.0


From fe750084b4e9fa44e477223677d43064f120ca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:25 +0000
Subject: [PATCH 37/40] fix: a qualified command name was registered relative
 to the caller's namespace

---
 src/ScriptInterpTCL.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index a448099..5311cd8 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -176,7 +176,11 @@ class ScriptInterpTCL : public ScriptInterp {
               std::make_shared<ScriptCmdTCL>(this, cmdName,
                 std::move(callback_proxy), usage, callbackParamMin,
                 callbackParamMax));
-          if (Tcl_CreateObjCommand(interp, *cmdName,
+          /* A qualified name is global, whatever namespace is calling. */
+          const size_t pos = cmdName.find("::");
+          const String name((pos == 0 || pos == String::npos) ? cmdName :
+              "::" + cmdName);
+          if (Tcl_CreateObjCommand(interp, *name,
                 ScriptCmdTCL::_createCommand_callback, ccd.get(),
                 ScriptCmdTCL::_deleteCommand_callback))
             ccd.release();
-- 
2.43.0


From 12a553419c0660813d0ce7c5a4996c616f80851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:25 +0000
Subject: [PATCH 38/40] fix: HashTable lost atomicity and aborted when copying
 a value ran out of memory

insert() created the key with an empty value before copying the value, and
getValue() ended the process through its noexcept.
---
 src/HashTable.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/HashTable.h b/src/HashTable.h
index 9bd6788..2ec764e 100644
--- a/src/HashTable.h
+++ b/src/HashTable.h
@@ -137,25 +137,25 @@ class HashTable {
 
     inline bool insert(const Key& key, const Value& value) {
       if (contains(key)) return false;
-      map[key] = value;
+      map.emplace(key, value);
       return true;
     }
 
     inline bool insert(Key&& key, const Value& value) {
       if (contains(key)) return false;
-      map[std::move(key)] = value;
+      map.emplace(std::move(key), value);
       return true;
     }
 
     inline bool insert(const Key& key, Value&& value) {
       if (contains(key)) return false;
-      map[key] = std::move(value);
+      map.emplace(key, std::move(value));
       return true;
     }
 
     inline bool insert(Key&& key, Value&& value) {
       if (contains(key)) return false;
-      map[std::move(key)] = std::move(value);
+      map.emplace(std::move(key), std::move(value));
       return true;
     }
 
@@ -169,7 +169,7 @@ class HashTable {
       return map.erase(key) > 0 ? true : false;
     };
 
-    inline Value getValue(const Key& key) const noexcept __attribute__((pure)) {
+    inline Value getValue(const Key& key) const {
       auto result = map.find(key);
       if (result == std::end(map))
         return Value();
@@ -180,7 +180,7 @@ class HashTable {
       * @brief Associate array type accessor (rvalue)
       * @param key The key to search for
       */
-    inline const Value operator[](const Key& key) const noexcept __attribute__((pure)) {
+    inline const Value operator[](const Key& key) const {
       return getValue(key);
     }
 
-- 
2.43.0


From db1d9a0a1e7cc3895711a56f420a1bdab5c9c447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:25 +0000
Subject: [PATCH 39/40] fix: inserting into an Array lost elements when copying
 one ran out of memory

The elements behind the position were copied, not moved, out of the way, over
elements still in use, and made room for copies that could fail.
---
 src/ReferenceCountedArray.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index e9d3fc8..d535c00 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -1132,9 +1132,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
         n = slen;
       slen -= slen - n;
       AboutToModify(length() + slen);
-      /* Shift right */
-      std::move_backward(constBuf(pos), constBuf(length()), Buf(length() + slen));
-      std::copy(rca.cbegin(), rca.cbegin() + slen, Buf(pos));
+      /* Copy behind our end first, the elements may run out of memory */
+      std::copy(rca.cbegin(), rca.cbegin() + slen, Buf(length()));
+      std::rotate(Buf(pos), Buf(length()), Buf(length() + slen));
       sublen += slen;
     }
 
@@ -1162,9 +1162,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       }
 
       AboutToModify(length() + slen);
-      /* Shift right */
-      std::move_backward(constBuf(pos), constBuf(length()), Buf(length() + slen));
-      std::copy(rca.cbegin(), rca.cbegin() + slen, Buf(pos));
+      /* Copy behind our end first, the elements may run out of memory */
+      std::copy(rca.cbegin(), rca.cbegin() + slen, Buf(length()));
+      std::rotate(Buf(pos), Buf(length()), Buf(length() + slen));
       sublen += slen;
     }
 
@@ -1192,9 +1192,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
         n = slen;
       slen -= slen - n;
       AboutToModify(length() + slen);
-      /* Shift right */
-      std::move_backward(constBuf(pos), constBuf(length()), Buf(length() + slen));
-      std::move(rca.cbegin(), rca.cbegin() + slen, Buf() + pos);
+      /* Copy behind our end first, the elements may run out of memory */
+      std::copy(rca.cbegin(), rca.cbegin() + slen, Buf(length()));
+      std::rotate(Buf(pos), Buf(length()), Buf(length() + slen));
       sublen += slen;
     }
 
@@ -1217,9 +1217,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       }
 
       AboutToModify(length() + slen);
-      /* Shift right */
-      std::move_backward(constBuf(pos), constBuf(length()), Buf(length() + slen));
-      std::move(rca.cbegin(), rca.cbegin() + slen, Buf() + pos);
+      /* Copy behind our end first, the elements may run out of memory */
+      std::copy(rca.cbegin(), rca.cbegin() + slen, Buf(length()));
+      std::rotate(Buf(pos), Buf(length()), Buf(length() + slen));
       sublen += slen;
     }
 
@@ -1255,7 +1255,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       AboutToModify(length() + 1);
       /* Shift right */
-      std::move_backward(constBuf(pos), constBuf(length()), Buf(length() + 1));
+      std::move_backward(Buf(pos), Buf(length()), Buf(length() + 1));
       *(Buf(pos)) = std::move(item);
       ++sublen;
     }
-- 
2.43.0


From d352b3d1a408225f3f1be1040eb3e8e9b48f30c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:56 +0000
Subject: [PATCH 40/40] fix: growing an Array leaked the new buffer when an
 element ran out of memory

ArrayRef::reserve() dropped the buffer it had just allocated when
constructing the elements that fill it threw.
---
 src/ReferenceCountedArray.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index d535c00..3e34e32 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -84,8 +84,15 @@ class ArrayRef {
 
         if (newbuf != buf) {
           // Initialize new memory
-          if __CPP17_IFCONSTEXPR (std::is_class<T>::value)
-            std::uninitialized_fill(newbuf + sublen, newbuf + newSize, T());
+          if __CPP17_IFCONSTEXPR (std::is_class<T>::value) {
+            try {
+              std::uninitialized_fill(newbuf + sublen, newbuf + newSize, T());
+            } catch (...) {
+              std::allocator_traits<Allocator>::deallocate(alloc, newbuf,
+                  newSize);
+              throw;
+            }
+          }
           if (buf) {
             /* Copy old buffer into new - only copy the subarray */
             if __CPP17_IFCONSTEXPR (std::is_class<T>::value) {
-- 
2.43.0

