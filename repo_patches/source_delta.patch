From ddfc41fb221cc0e0a8f9dcb5373f565a1e112fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 1/5] fix: store all length bytes of a substring record

set_length stopped at the first point where the remaining length bytes were
zero, so for lengths that are a multiple of 256 the trailing zero bytes were
never written and get_length read stale memory.
---
 src/hashtable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable.cpp b/src/hashtable.cpp
index 3f54d45..43b3430 100644
--- a/src/hashtable.cpp
+++ b/src/hashtable.cpp
@@ -175,7 +175,7 @@ void flbwt::HashTable::set_length(uint8_t *p, uint64_t length)
         (*r)--;
     }
 
-    while (length != 0)
+    for (uint8_t i = 0; i < *r; i++)
     {
         value = (length & 0xff00000000000000) >> 56;
         *p++ = value;
-- 
2.43.0


From 9be06b03f962e3541362285ad0cc2e7d0e76896a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 2/5] fix: transform strings of length 1 and 2

extract_LMS_strings returned before the hash table and head_string_end were
set, and bwt_string then dereferenced the missing table. The general
algorithm handles these lengths; only the scan in create_shortened_string
needs to be skipped for n == 1.
---
 src/flbwt.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 487446d..616f9bb 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -320,10 +320,6 @@ flbwt::Container *flbwt::extract_LMS_strings(uint8_t *T, const uint64_t n)
     // Initialize the result data structure
     flbwt::Container *container = new Container(n);
 
-    // If T is trivial, then return the result immediately
-    if (n <= 2)
-        return container;
-
     // Initialize hash table where unique substrings are stored
     container->hashtable = new HashTable(67777, n);
 
@@ -526,7 +522,7 @@ flbwt::PackedArray *flbwt::create_shortened_string(uint8_t *T, const uint64_t n,
     j--;
 
     // scan the input string from right to left and save the S* substrings
-    for (uint64_t i = n - 2; i >= 0; i--)
+    for (uint64_t i = n - 2; n > 1; i--)
     {
         // check if character is TYPE_S
         if (T[i] < T[i + 1])
-- 
2.43.0


From dd3a71066ca07ae1047c7a9b19e176c0945240d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 3/5] fix: reject input whose size is unknown or that is read
 short

ftell() returning -1 (e.g. for a FIFO) led to malloc(0) and a read past the
block; a short fread() was taken for success, so stale heap bytes were
transformed. The buffer and the stream are released on these paths too.
---
 src/flbwt.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 616f9bb..5fda15e 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -34,8 +34,15 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
     if (fp == NULL)
         throw std::invalid_argument("fopen failed(): Could not open input file");
 
-    fseek(fp, 0L, SEEK_END);
-    n = ftell(fp);
+    long size = fseek(fp, 0L, SEEK_END) == 0 ? ftell(fp) : -1L;
+
+    if (size < 0)
+    {
+        fclose(fp);
+        throw std::runtime_error("ftell failed(): Could not determine input file size");
+    }
+
+    n = size;
     rewind(fp);
 
     T = (uint8_t *)malloc((n + 1) * sizeof(uint8_t));
@@ -46,8 +53,12 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
         throw std::runtime_error("T* malloc failed(): Could not allocate memory");
     }
 
-    if (fread(T, 1, n, fp) <= 0)
+    if (n == 0 || fread(T, 1, n, fp) != n)
+    {
+        free(T);
+        fclose(fp);
         throw std::runtime_error("fread failed(): Could not read input file");
+    }
     fclose(fp);
 
     // Input string should end with '\0' --> so the following assignment is ok.
-- 
2.43.0


From 728d72c807b809b779dc7f61e2e848febbd8413c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 4/5] fix: report output that could not be written completely

bwt_file ignored the results of fwrite() and fclose(), so it returned
normally with a truncated output file (e.g. on a full disk). The result is
also released when the output file cannot be opened.
---
 src/flbwt.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 5fda15e..b8f9ba8 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -74,7 +74,13 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
     fp = fopen(output_filename, "wb");
 
     if (fp == NULL)
+    {
+        delete[] B->BWT;
+        free(B);
         throw std::invalid_argument("fopen failed(): Could not open output file");
+    }
+
+    bool ok = true; // is everything written?
 
     if (B != NULL && B->BWT != NULL)
     {
@@ -88,26 +94,26 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
         rank[5] = (0x0000000000ff0000 & B->last) >> 16;
         rank[6] = (0x000000000000ff00 & B->last) >> 8;
         rank[7] = 0x00000000000000ff & B->last;
-        fwrite(rank, sizeof(uint8_t), 8, fp);
+        ok = fwrite(rank, sizeof(uint8_t), 8, fp) == 8;
         delete[] rank;
 
         // Write other content (BWT)
         if (B->last == 0)
         {
-            fwrite(B->BWT + 1, sizeof(uint8_t), n, fp);
+            ok = fwrite(B->BWT + 1, sizeof(uint8_t), n, fp) == n && ok;
         }
         else if (B->last == n)
         {
-            fwrite(B->BWT, sizeof(uint8_t), n, fp);
+            ok = fwrite(B->BWT, sizeof(uint8_t), n, fp) == n && ok;
         }
         else
         {
-            fwrite(B->BWT, sizeof(uint8_t), B->last, fp);
-            fwrite(B->BWT + B->last + 1, sizeof(uint8_t), n - B->last, fp);
+            ok = fwrite(B->BWT, sizeof(uint8_t), B->last, fp) == B->last && ok;
+            ok = fwrite(B->BWT + B->last + 1, sizeof(uint8_t), n - B->last, fp) == n - B->last && ok;
         }
     }
 
-    fclose(fp);
+    ok = fclose(fp) == 0 && ok;
 
     // Release result resources
     if (B != NULL)
@@ -116,6 +122,9 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
             delete[] B->BWT;
         free(B);
     }
+
+    if (!ok)
+        throw std::runtime_error("fwrite failed(): Could not write output file");
 }
 
 flbwt::BWT_result *flbwt::bwt_string(uint8_t *T, const uint64_t n, bool free_T)
-- 
2.43.0


From 0bead768bca1b23e29f4a0be0750dbc38307db61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:27 +0000
Subject: [PATCH 5/5] fix: report failed allocations by std::bad_alloc instead
 of using a null pointer

---
 src/flbwt.cpp        | 5 +++++
 src/hashtable.cpp    | 3 +++
 src/induce32bit.cpp  | 3 +++
 src/induce40bit.cpp  | 3 +++
 src/induce48bit.cpp  | 3 +++
 src/induce56bit.cpp  | 3 +++
 src/induce64bit.cpp  | 3 +++
 src/packed_array.cpp | 3 +++
 src/queue.cpp        | 5 +++++
 9 files changed, 31 insertions(+)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index b8f9ba8..c1fae93 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -1,3 +1,4 @@
+#include <new>
 #include <algorithm>
 #include <iostream>
 // #include <time.h>
@@ -398,6 +399,8 @@ uint8_t **flbwt::sort_LMS_strings(uint8_t *T, flbwt::Container *container)
 {
     // array s will hold hashtable positions of sorted S* substrings
     uint8_t **s = (uint8_t **)malloc((container->num_of_unique_substrings + 2) * sizeof(uint8_t *));
+    if (s == NULL)
+        throw std::bad_alloc();
 
     uint64_t p, i, j, l, m;
     uint8_t *r, *q;
@@ -408,6 +411,8 @@ uint8_t **flbwt::sort_LMS_strings(uint8_t *T, flbwt::Container *container)
     uint64_t space_required = 1 + 1 + container->hashtable->calculate_lenlen(p + 1) + (p + 1) + container->hashtable->NAME_BYTES;
     space_required += 1 + 1 + 1 + 1 + container->hashtable->NAME_BYTES;
     r = (uint8_t *)realloc(container->hashtable->buf, container->hashtable->bufsize + space_required);
+    if (r == NULL)
+        throw std::bad_alloc();
     if (r != container->hashtable->buf)
         container->hashtable->buf = r;
     container->hashtable->bufsize += space_required;
diff --git a/src/hashtable.cpp b/src/hashtable.cpp
index 43b3430..99a7ce3 100644
--- a/src/hashtable.cpp
+++ b/src/hashtable.cpp
@@ -1,3 +1,4 @@
+#include <new>
 #include <iostream>
 #include <algorithm>
 #include "hashtable.hpp"
@@ -88,6 +89,8 @@ uint8_t flbwt::HashTable::insert_string(const uint64_t m, uint8_t *p)
     if ((int64_t)space_required >= (int64_t)this->rest[h] - 12)
     {
         r2 = (uint8_t *)realloc(this->buf, this->bufsize + this->HBSIZE + space_required);
+        if (r2 == NULL)
+            throw std::bad_alloc();
 
         if (r2 != this->buf)
             this->buf = r2;
diff --git a/src/induce32bit.cpp b/src/induce32bit.cpp
index afba1a6..9d70f88 100644
--- a/src/induce32bit.cpp
+++ b/src/induce32bit.cpp
@@ -1,3 +1,4 @@
+#include <new>
 #include <iostream>
 #include "induce32bit.hpp"
 #include "queue.hpp"
@@ -171,6 +172,8 @@ flbwt::BWT_result *flbwt::induce_bwt_32bit(int32_t *SA, flbwt::Container *contai
 
     // return the result bwt
     BWT_result *bwt_result = (BWT_result *)malloc(sizeof(BWT_result));
+    if (bwt_result == NULL)
+        throw std::bad_alloc();
     bwt_result->last = last;
     bwt_result->BWT = BWT;
 
diff --git a/src/induce40bit.cpp b/src/induce40bit.cpp
index da4e17f..0fa6b37 100644
--- a/src/induce40bit.cpp
+++ b/src/induce40bit.cpp
@@ -1,3 +1,4 @@
+#include <new>
 #include <iostream>
 #include "induce40bit.hpp"
 #include "sais40bit.hpp"
@@ -173,6 +174,8 @@ flbwt::BWT_result *flbwt::induce_bwt_40bit(uint32_t *SA_L, int8_t *SA_U, flbwt::
 
     // return the result bwt
     BWT_result *bwt_result = (BWT_result *)malloc(sizeof(BWT_result));
+    if (bwt_result == NULL)
+        throw std::bad_alloc();
     bwt_result->last = last;
     bwt_result->BWT = BWT;
 
diff --git a/src/induce48bit.cpp b/src/induce48bit.cpp
index 5d67da7..2055109 100644
--- a/src/induce48bit.cpp
+++ b/src/induce48bit.cpp
@@ -1,3 +1,4 @@
+#include <new>
 #include <iostream>
 #include "induce48bit.hpp"
 #include "sais48bit.hpp"
@@ -173,6 +174,8 @@ flbwt::BWT_result *flbwt::induce_bwt_48bit(uint32_t *SA_L, int16_t *SA_U, flbwt:
 
     // return the result bwt
     BWT_result *bwt_result = (BWT_result *)malloc(sizeof(BWT_result));
+    if (bwt_result == NULL)
+        throw std::bad_alloc();
     bwt_result->last = last;
     bwt_result->BWT = BWT;
 
diff --git a/src/induce56bit.cpp b/src/induce56bit.cpp
index c9588f5..d438c4a 100644
--- a/src/induce56bit.cpp
+++ b/src/induce56bit.cpp
@@ -1,3 +1,4 @@
+#include <new>
 #include <iostream>
 #include "induce56bit.hpp"
 #include "sais56bit.hpp"
@@ -174,6 +175,8 @@ flbwt::BWT_result *flbwt::induce_bwt_56bit(uint32_t *SA_L, uint16_t *SA_M, int8_
 
     // return the result bwt
     BWT_result *bwt_result = (BWT_result *)malloc(sizeof(BWT_result));
+    if (bwt_result == NULL)
+        throw std::bad_alloc();
     bwt_result->last = last;
     bwt_result->BWT = BWT;
 
diff --git a/src/induce64bit.cpp b/src/induce64bit.cpp
index d59cb3a..142fa13 100644
--- a/src/induce64bit.cpp
+++ b/src/induce64bit.cpp
@@ -1,3 +1,4 @@
+#include <new>
 #include <iostream>
 #include "induce64bit.hpp"
 #include "queue.hpp"
@@ -171,6 +172,8 @@ flbwt::BWT_result *flbwt::induce_bwt_64bit(int64_t *SA, flbwt::Container *contai
 
     // return the result bwt
     BWT_result *bwt_result = (BWT_result *)malloc(sizeof(BWT_result));
+    if (bwt_result == NULL)
+        throw std::bad_alloc();
     bwt_result->last = last;
     bwt_result->BWT = BWT;
 
diff --git a/src/packed_array.cpp b/src/packed_array.cpp
index cdca17d..144bbfa 100644
--- a/src/packed_array.cpp
+++ b/src/packed_array.cpp
@@ -1,3 +1,4 @@
+#include <new>
 #include <cstdlib>
 #include <stddef.h>
 #include "packed_array.hpp"
@@ -12,6 +13,8 @@ flbwt::PackedArray::PackedArray(uint64_t length, uint8_t integer_bits)
     uint64_t bits_required = length * this->integer_bits;
     uint64_t arr_length = bits_required / 64 + 1;
     this->arr = (uint64_t *)malloc(arr_length * sizeof(uint64_t));
+    if (this->arr == NULL)
+        throw std::bad_alloc();
     this->arr_length = arr_length;
 }
 
diff --git a/src/queue.cpp b/src/queue.cpp
index acf3655..8ec742f 100644
--- a/src/queue.cpp
+++ b/src/queue.cpp
@@ -1,3 +1,4 @@
+#include <new>
 #include <stddef.h>
 #include <stdlib.h>
 #include "queue.hpp"
@@ -37,6 +38,8 @@ void flbwt::Queue::enqueue(uint64_t x)
     if (this->e_ofs == QSIZ - 1)
     { // current block is full
         qb = (qblock *)malloc(sizeof(qblock));
+        if (qb == NULL)
+            throw std::bad_alloc();
         qb->b = new PackedArray(QSIZ, this->w);
 
         if (this->eb == NULL)
@@ -67,6 +70,8 @@ void flbwt::Queue::enqueue_l(uint64_t x)
     if (this->s_ofs == 0)
     { // current block is full
         qb = (qblock *)malloc(sizeof(qblock));
+        if (qb == NULL)
+            throw std::bad_alloc();
         qb->b = new PackedArray(QSIZ, this->w);
 
         if (this->sb == NULL)
-- 
2.43.0

