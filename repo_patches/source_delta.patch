From 760ec9443ce11e2f86f8ba6eef24f80b0b29eba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:08 +0000
Subject: [PATCH 01/53] fix: release a hash table's user data when the table is
 freed

---
 src/libcork/ds/hash-table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcork/ds/hash-table.c b/src/libcork/ds/hash-table.c
index 6fec797..3b34373 100644
--- a/src/libcork/ds/hash-table.c
+++ b/src/libcork/ds/hash-table.c
@@ -193,6 +193,7 @@ void
 cork_hash_table_free(struct cork_hash_table *table)
 {
     cork_hash_table_clear(table);
+    cork_free_user_data(table);
     cork_cfree(table->bins, table->bin_count, sizeof(struct cork_dllist));
     cork_delete(struct cork_hash_table, table);
 }
-- 
2.43.0


From 9ff421e33d78ab6d302c7f9c054032a664bbbb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:55 +0000
Subject: [PATCH 02/53] fix: cork_array_clear only removes the elements that
 are in the array

Entries past the end of the array have already been passed to the remove
callback when they were removed; don't call it for them a second time.
---
 src/libcork/ds/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcork/ds/array.c b/src/libcork/ds/array.c
index 571353e..ab02835 100644
--- a/src/libcork/ds/array.c
+++ b/src/libcork/ds/array.c
@@ -128,7 +128,7 @@ cork_raw_array_clear(struct cork_raw_array *array)
     if (array->priv->remove != NULL) {
         size_t  i;
         char  *element = array->items;
-        for (i = 0; i < array->priv->initialized_count; i++) {
+        for (i = 0; i < array->size; i++) {
             array->priv->remove(array->priv->user_data, element);
             element += array->priv->element_size;
         }
-- 
2.43.0


From 1626170fbb1ea3ede98bc2979d119f8bf9ca1f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:28 +0000
Subject: [PATCH 03/53] fix: removing array elements keeps each initialized
 entry distinct

Without a remove callback we would overwrite the removed entries and leave
duplicates of the following ones past the end of the array, so that the done
callback saw some entries twice and others never.
---
 src/libcork/ds/array.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/libcork/ds/array.c b/src/libcork/ds/array.c
index ab02835..6e504f5 100644
--- a/src/libcork/ds/array.c
+++ b/src/libcork/ds/array.c
@@ -234,8 +234,9 @@ cork_raw_array_remove_range(struct cork_raw_array* array, size_t index,
     char* end_of_array = array->items + (array->size * element_size);
 
     array->size -= count;
-    if (array->priv->remove == NULL) {
-        /* If there isn't a cleanup callback, just move the array contents
+    if (array->priv->init == NULL && array->priv->done == NULL &&
+        array->priv->reuse == NULL && array->priv->remove == NULL) {
+        /* If there aren't any callbacks, just move the array contents
          * directly. */
         if (end_of_removed < end_of_array) {
             memmove(start_of_removed, end_of_removed, remaining * element_size);
@@ -254,9 +255,11 @@ cork_raw_array_remove_range(struct cork_raw_array* array, size_t index,
 
         /* Then call the cleanup callback on all of the elements to be removed,
          * which are now guaranteed to be at the end of the array. */
-        while (start_of_removed < end_of_removed) {
-            array->priv->remove(array->priv->user_data, start_of_removed);
-            start_of_removed += element_size;
+        if (array->priv->remove != NULL) {
+            while (start_of_removed < end_of_removed) {
+                array->priv->remove(array->priv->user_data, start_of_removed);
+                start_of_removed += element_size;
+            }
         }
     }
 }
-- 
2.43.0


From 569bc05ac37ef31c2ef1a703844bac8b0bd4e67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 04/53] fix: a failed array copy removes the elements it had
 already prepared

Otherwise the entries stay initialized and filled in past the end of the
(empty) array, and the next elements appended overwrite them unseen.
---
 src/libcork/ds/array.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libcork/ds/array.c b/src/libcork/ds/array.c
index 6e504f5..da1a120 100644
--- a/src/libcork/ds/array.c
+++ b/src/libcork/ds/array.c
@@ -316,7 +316,13 @@ cork_raw_array_copy(struct cork_raw_array *dest,
         const char  *src_element = src->items;
         dest_element = dest->items;
         for (i = 0; i < src->size; i++) {
-            rii_check(copy(user_data, dest_element, src_element));
+            int  rc = copy(user_data, dest_element, src_element);
+            if (rc != 0) {
+                /* Don't leave any half-copied elements behind. */
+                dest->size = src->size;
+                cork_array_clear(dest);
+                return rc;
+            }
             dest_element += dest->priv->element_size;
             src_element += dest->priv->element_size;
         }
-- 
2.43.0


From ad75b9b6c01e12819950f541d3e86fba5797a4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:05 +0000
Subject: [PATCH 05/53] fix: bounds checks of slices can no longer be defeated
 by overflow

offset + length could wrap around, in which case we accepted a slice that
reaches far outside of the underlying buffer.
---
 src/libcork/ds/managed-buffer.c | 2 +-
 src/libcork/ds/slice.c          | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libcork/ds/managed-buffer.c b/src/libcork/ds/managed-buffer.c
index 295413a..ea6b094 100644
--- a/src/libcork/ds/managed-buffer.c
+++ b/src/libcork/ds/managed-buffer.c
@@ -197,7 +197,7 @@ cork_managed_buffer_slice(struct cork_slice *dest,
 {
     if ((buffer != NULL) &&
         (offset <= buffer->size) &&
-        ((offset + length) <= buffer->size)) {
+        (length <= (buffer->size - offset))) {
         /*
         DEBUG("Slicing [%p:%zu] at %zu:%zu, gives <%p:%zu>",
               buffer->buf, buffer->size,
diff --git a/src/libcork/ds/slice.c b/src/libcork/ds/slice.c
index 395130a..ee14ca4 100644
--- a/src/libcork/ds/slice.c
+++ b/src/libcork/ds/slice.c
@@ -51,7 +51,7 @@ cork_slice_copy(struct cork_slice *dest, const struct cork_slice *slice,
 {
     if ((slice != NULL) &&
         (offset <= slice->size) &&
-        ((offset + length) <= slice->size)) {
+        (length <= (slice->size - offset))) {
         /*
         DEBUG("Slicing <%p:%zu> at %zu:%zu, gives <%p:%zu>",
               slice->buf, slice->size,
@@ -96,7 +96,7 @@ cork_slice_light_copy(struct cork_slice *dest, const struct cork_slice *slice,
 {
     if ((slice != NULL) &&
         (offset <= slice->size) &&
-        ((offset + length) <= slice->size)) {
+        (length <= (slice->size - offset))) {
         /*
         DEBUG("Slicing <%p:%zu> at %zu:%zu, gives <%p:%zu>",
               slice->buf, slice->size,
@@ -140,7 +140,7 @@ cork_slice_slice(struct cork_slice *slice, size_t offset, size_t length)
 {
     if ((slice != NULL) &&
         (offset <= slice->size) &&
-        ((offset + length) <= slice->size)) {
+        (length <= (slice->size - offset))) {
         /*
         DEBUG("Slicing <%p:%zu> at %zu:%zu, gives <%p:%zu>",
               slice->buf, slice->size,
-- 
2.43.0


From cbd0ef6f19d3bb8c15845dfa952e784337d91093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:34 +0000
Subject: [PATCH 06/53] fix: update the reference count of a managed buffer
 atomically

cork_managed_buffer_ref and _unref are documented to be thread-safe.
---
 src/libcork/ds/managed-buffer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libcork/ds/managed-buffer.c b/src/libcork/ds/managed-buffer.c
index ea6b094..f0d8792 100644
--- a/src/libcork/ds/managed-buffer.c
+++ b/src/libcork/ds/managed-buffer.c
@@ -15,6 +15,7 @@
 #include "libcork/ds/managed-buffer.h"
 #include "libcork/ds/slice.h"
 #include "libcork/helpers/errors.h"
+#include "libcork/threads/atomics.h"
 
 
 /*-----------------------------------------------------------------------
@@ -140,7 +141,7 @@ cork_managed_buffer_ref(struct cork_managed_buffer *self)
           self->buf, self->size, old_count + 1);
     */
 
-    self->ref_count++;
+    cork_int_atomic_add(&self->ref_count, 1);
     return self;
 }
 
@@ -154,7 +155,7 @@ cork_managed_buffer_unref(struct cork_managed_buffer *self)
           self->buf, self->size, old_count - 1);
     */
 
-    if (--self->ref_count == 0) {
+    if (cork_int_atomic_sub(&self->ref_count, 1) == 0) {
         cork_managed_buffer_free(self);
     }
 }
-- 
2.43.0


From e6928fe2b795e986be3d75911087ab8df01b82a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:03 +0000
Subject: [PATCH 07/53] fix: cork_slice_slice reports an error for a NULL
 slice, like its siblings

---
 src/libcork/ds/slice.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcork/ds/slice.c b/src/libcork/ds/slice.c
index ee14ca4..6813f1e 100644
--- a/src/libcork/ds/slice.c
+++ b/src/libcork/ds/slice.c
@@ -162,8 +162,8 @@ cork_slice_slice(struct cork_slice *slice, size_t offset, size_t length)
               slice->buf, slice->size,
               offset, length);
         */
-        if (slice != NULL)
-            cork_slice_invalid_slice_set(slice->size, offset, length);
+        cork_slice_invalid_slice_set
+            ((slice == NULL)? 0: slice->size, offset, length);
         return -1;
     }
 }
-- 
2.43.0


From dbaa05d090af2721bbf31ce3403cb34c8c01fddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:14 +0000
Subject: [PATCH 08/53] fix: collect garbage cycles without touching freed or
 half-released objects

---
 src/libcork/core/gc.c | 124 ++++++++++++++++++++++++++----------------
 1 file changed, 76 insertions(+), 48 deletions(-)

diff --git a/src/libcork/core/gc.c b/src/libcork/core/gc.c
index f26ae7b..9831949 100644
--- a/src/libcork/core/gc.c
+++ b/src/libcork/core/gc.c
@@ -7,6 +7,7 @@
  * ----------------------------------------------------------------------
  */
 
+#include <stdbool.h>
 #include <stdlib.h>
 
 #include "libcork/config/config.h"
@@ -40,10 +41,15 @@ struct cork_gc_header;
 
 /* A garbage collector context. */
 struct cork_gc {
-    /* The number of used entries in roots. */
+    /* The number of entries in roots. */
     size_t  root_count;
     /* The possible roots of garbage cycles */
-    struct cork_gc_header  *roots[ROOTS_SIZE];
+    struct cork_gc_header  *roots;
+    /* The garbage objects that the current collection will free */
+    struct cork_gc_header  *garbage;
+    /* Whether we're in the middle of updating some reference counts.  We can
+     * only collect cycles when the reference counts are consistent. */
+    bool  busy;
 };
 
 cork_tls(struct cork_gc, cork_gc);
@@ -67,6 +73,11 @@ struct cork_gc_header {
 
     /* The garbage collection interface for this object. */
     struct cork_gc_obj_iface  *iface;
+
+    /* Links for the list of possible roots, if the object is buffered, or for
+     * the list of garbage objects that are about to be freed. */
+    struct cork_gc_header  *next;
+    struct cork_gc_header  **prev;
 };
 
 /*
@@ -157,7 +168,11 @@ cork_gc_init(void)
 void
 cork_gc_done(void)
 {
-    cork_gc_collect_cycles(cork_gc_get());
+    struct cork_gc  *gc = cork_gc_get();
+    bool  was_busy = gc->busy;
+    gc->busy = true;
+    cork_gc_collect_cycles(gc);
+    gc->busy = was_busy;
 }
 
 void *
@@ -186,6 +201,30 @@ cork_gc_incref(void *obj)
     return obj;
 }
 
+static void
+cork_gc_add_root(struct cork_gc *gc, struct cork_gc_header *header)
+{
+    cork_gc_set_buffered(header, true);
+    header->next = gc->roots;
+    header->prev = &gc->roots;
+    if (gc->roots != NULL) {
+        gc->roots->prev = &header->next;
+    }
+    gc->roots = header;
+    gc->root_count++;
+}
+
+static void
+cork_gc_remove_root(struct cork_gc *gc, struct cork_gc_header *header)
+{
+    cork_gc_set_buffered(header, false);
+    *header->prev = header->next;
+    if (header->next != NULL) {
+        header->next->prev = header->prev;
+    }
+    gc->root_count--;
+}
+
 static void
 cork_gc_decref_step(struct cork_gc *gc, void *obj, void *ud);
 
@@ -194,9 +233,10 @@ cork_gc_release(struct cork_gc *gc, struct cork_gc_header *header)
 {
     cork_gc_recurse(gc, header, cork_gc_decref_step);
     cork_gc_set_color(header, GC_BLACK);
-    if (!cork_gc_get_buffered(header)) {
-        cork_gc_free(header);
+    if (cork_gc_get_buffered(header)) {
+        cork_gc_remove_root(gc, header);
     }
+    cork_gc_free(header);
 }
 
 static void
@@ -206,11 +246,7 @@ cork_gc_possible_root(struct cork_gc *gc, struct cork_gc_header *header)
         DEBUG("  Possible garbage cycle root\n");
         cork_gc_set_color(header, GC_PURPLE);
         if (!cork_gc_get_buffered(header)) {
-            cork_gc_set_buffered(header, true);
-            if (gc->root_count >= ROOTS_SIZE) {
-                cork_gc_collect_cycles(gc);
-            }
-            gc->roots[gc->root_count++] = header;
+            cork_gc_add_root(gc, header);
         }
     } else {
         DEBUG("  Already marked as possible garbage cycle root\n");
@@ -239,16 +275,13 @@ cork_gc_decref(void *obj)
 {
     if (obj != NULL) {
         struct cork_gc  *gc = cork_gc_get();
-        struct cork_gc_header  *header = cork_gc_get_header(obj);
-        cork_gc_dec_ref_count(header);
-        DEBUG("Decrementing %p -> %d\n",
-              obj, cork_gc_get_ref_count(header));
-        if (cork_gc_get_ref_count(header) == 0) {
-            DEBUG("  Releasing %p\n", header);
-            cork_gc_release(gc, header);
-        } else {
-            cork_gc_possible_root(gc, header);
+        bool  was_busy = gc->busy;
+        gc->busy = true;
+        cork_gc_decref_step(gc, obj, NULL);
+        if (!was_busy && gc->root_count >= ROOTS_SIZE) {
+            cork_gc_collect_cycles(gc);
         }
+        gc->busy = was_busy;
     }
 }
 
@@ -281,9 +314,10 @@ cork_gc_mark_gray_step(struct cork_gc *gc, void *obj, void *ud)
 static void
 cork_gc_mark_roots(struct cork_gc *gc)
 {
-    size_t  i;
-    for (i = 0; i < gc->root_count; i++) {
-        struct cork_gc_header  *header = gc->roots[i];
+    struct cork_gc_header  *header;
+    struct cork_gc_header  *next;
+    for (header = gc->roots; header != NULL; header = next) {
+        next = header->next;
         if (cork_gc_get_color(header) == GC_PURPLE) {
             DEBUG("  Checking possible garbage cycle root %p\n",
                   cork_gc_get_object(header));
@@ -293,13 +327,7 @@ cork_gc_mark_roots(struct cork_gc *gc)
         } else {
             DEBUG("  Possible garbage cycle root %p already checked\n",
                   cork_gc_get_object(header));
-            cork_gc_set_buffered(header, false);
-            gc->roots[i] = NULL;
-            if (cork_gc_get_color(header) == GC_BLACK &&
-                cork_gc_get_ref_count(header) == 0) {
-                DEBUG("  Freeing %p\n", header);
-                cork_gc_free(header);
-            }
+            cork_gc_remove_root(gc, header);
         }
     }
 }
@@ -354,15 +382,14 @@ cork_gc_scan(struct cork_gc *gc, void *obj, void *ud)
 static void
 cork_gc_scan_roots(struct cork_gc *gc)
 {
-    size_t  i;
-    for (i = 0; i < gc->root_count; i++) {
-        if (gc->roots[i] != NULL) {
-            void  *obj = cork_gc_get_object(gc->roots[i]);
-            cork_gc_scan(gc, obj, NULL);
-        }
+    struct cork_gc_header  *header;
+    for (header = gc->roots; header != NULL; header = header->next) {
+        cork_gc_scan(gc, cork_gc_get_object(header), NULL);
     }
 }
 
+/* We can't free any garbage objects until we've found all of them, since we
+ * have to look at the color of each child of each of them. */
 static void
 cork_gc_collect_white(struct cork_gc *gc, void *obj, void *ud)
 {
@@ -372,9 +399,9 @@ cork_gc_collect_white(struct cork_gc *gc, void *obj, void *ud)
             !cork_gc_get_buffered(header)) {
             DEBUG("  Releasing %p\n", obj);
             cork_gc_set_color(header, GC_BLACK);
+            header->next = gc->garbage;
+            gc->garbage = header;
             cork_gc_recurse(gc, header, cork_gc_collect_white);
-            DEBUG("  Freeing %p\n", header);
-            cork_gc_free(header);
         }
     }
 }
@@ -382,18 +409,19 @@ cork_gc_collect_white(struct cork_gc *gc, void *obj, void *ud)
 static void
 cork_gc_collect_roots(struct cork_gc *gc)
 {
-    size_t  i;
-    for (i = 0; i < gc->root_count; i++) {
-        if (gc->roots[i] != NULL) {
-            struct cork_gc_header  *header = gc->roots[i];
-            void  *obj = cork_gc_get_object(header);
-            cork_gc_set_buffered(header, false);
-            DEBUG("Collecting cycles from garbage root %p\n", obj);
-            cork_gc_collect_white(gc, obj, NULL);
-            gc->roots[i] = NULL;
-        }
+    while (gc->roots != NULL) {
+        struct cork_gc_header  *header = gc->roots;
+        void  *obj = cork_gc_get_object(header);
+        cork_gc_remove_root(gc, header);
+        DEBUG("Collecting cycles from garbage root %p\n", obj);
+        cork_gc_collect_white(gc, obj, NULL);
+    }
+    while (gc->garbage != NULL) {
+        struct cork_gc_header  *header = gc->garbage;
+        gc->garbage = header->next;
+        DEBUG("  Freeing %p\n", header);
+        cork_gc_free(header);
     }
-    gc->root_count = 0;
 }
 
 static void
-- 
2.43.0


From 9fae1cb4a7e13d6f4781991b076ec3c8f99fb76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:30 +0000
Subject: [PATCH 09/53] fix: keep the objects of a memory pool aligned

---
 src/libcork/core/mempool.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/libcork/core/mempool.c b/src/libcork/core/mempool.c
index f25d0aa..b4ca7c9 100644
--- a/src/libcork/core/mempool.c
+++ b/src/libcork/core/mempool.c
@@ -54,8 +54,12 @@ struct cork_mempool_block {
     struct cork_mempool_block  *next_block;
 };
 
+/* The distance between objects; we must keep each object's header aligned, as
+ * well as any type whose size is the pool's element size. */
 #define cork_mempool_object_size(mp) \
-    (sizeof(struct cork_mempool_object) + (mp)->element_size)
+    (cork_mempool_align((mp)->element_size, \
+                        sizeof(struct cork_mempool_object) + \
+                        (mp)->element_size))
 
 #define cork_mempool_get_header(obj) \
     (((struct cork_mempool_object *) (obj)) - 1)
@@ -64,6 +68,14 @@ struct cork_mempool_block {
     ((void *) (((struct cork_mempool_object *) (hdr)) + 1))
 
 
+static size_t
+cork_mempool_align(size_t element_size, size_t size)
+{
+    size_t  alignment =
+        (element_size % 16 == 0)? 16: sizeof(struct cork_mempool_object);
+    return (size + alignment - 1) / alignment * alignment;
+}
+
 struct cork_mempool *
 cork_mempool_new_size_ex(size_t element_size, size_t block_size)
 {
-- 
2.43.0


From 03ce0653b123c6c4e92c42df35dae65fcab7e350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:57 +0000
Subject: [PATCH 10/53] fix: a memory pool's blocks always have room for an
 object

---
 src/libcork/core/mempool.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libcork/core/mempool.c b/src/libcork/core/mempool.c
index b4ca7c9..11ab9ad 100644
--- a/src/libcork/core/mempool.c
+++ b/src/libcork/core/mempool.c
@@ -81,7 +81,12 @@ cork_mempool_new_size_ex(size_t element_size, size_t block_size)
 {
     struct cork_mempool  *mp = cork_new(struct cork_mempool);
     mp->element_size = element_size;
-    mp->block_size = block_size;
+    /* Every block must have room for at least one object. */
+    mp->block_size =
+        sizeof(struct cork_mempool_block) + cork_mempool_object_size(mp);
+    if (mp->block_size < block_size) {
+        mp->block_size = block_size;
+    }
     mp->free_list = NULL;
     mp->allocated_count = 0;
     mp->blocks = NULL;
-- 
2.43.0


From a51723e3a9bf7b23d696c639f9aabd99a724c9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:39 +0000
Subject: [PATCH 11/53] fix: a new error message can refer to the current one

---
 src/libcork/core/error.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/libcork/core/error.c b/src/libcork/core/error.c
index 1d16206..a5beec6 100644
--- a/src/libcork/core/error.c
+++ b/src/libcork/core/error.c
@@ -131,14 +131,22 @@ cork_error_clear(void)
     cork_buffer_clear(error->message);
 }
 
+/* The arguments of a new message might refer to the current message, so we
+ * always render into the other buffer, and then make it the current one. */
+static void
+cork_error_swap(struct cork_error *error)
+{
+    struct cork_buffer  *temp = error->other;
+    error->other = error->message;
+    error->message = temp;
+}
+
 void
 cork_error_set_printf(cork_error code, const char *format, ...)
 {
     va_list  args;
-    struct cork_error  *error = cork_error_get();
-    error->code = code;
     va_start(args, format);
-    cork_buffer_vprintf(error->message, format, args);
+    cork_error_set_vprintf(code, format, args);
     va_end(args);
 }
 
@@ -147,7 +155,8 @@ cork_error_set_string(cork_error code, const char *str)
 {
     struct cork_error  *error = cork_error_get();
     error->code = code;
-    cork_buffer_set_string(error->message, str);
+    cork_buffer_set_string(error->other, str);
+    cork_error_swap(error);
 }
 
 void
@@ -155,7 +164,8 @@ cork_error_set_vprintf(cork_error code, const char *format, va_list args)
 {
     struct cork_error  *error = cork_error_get();
     error->code = code;
-    cork_buffer_vprintf(error->message, format, args);
+    cork_buffer_vprintf(error->other, format, args);
+    cork_error_swap(error);
 }
 
 void
-- 
2.43.0


From 5209f254de541ca7bdd1e390b978d27b4790424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:21 +0000
Subject: [PATCH 12/53] fix: retry an interrupted write in the file descriptor
 consumer

---
 src/libcork/ds/file-stream.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libcork/ds/file-stream.c b/src/libcork/ds/file-stream.c
index e56aeb1..a38b2b9 100644
--- a/src/libcork/ds/file-stream.c
+++ b/src/libcork/ds/file-stream.c
@@ -155,9 +155,11 @@ cork_fd_consumer__data(struct cork_stream_consumer *vself,
 
     while (bytes_left > 0) {
         ssize_t  rc = write(self->fd, buf, bytes_left);
-        if (rc == -1 && errno != EINTR) {
-            cork_system_error_set();
-            return -1;
+        if (rc == -1) {
+            if (errno != EINTR) {
+                cork_system_error_set();
+                return -1;
+            }
         } else {
             bytes_left -= rc;
             buf += rc;
-- 
2.43.0


From 35774e44cac53afc1a9698e2911197fac25a870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:45 +0000
Subject: [PATCH 13/53] fix: close the file of a path consumer even if its
 stream never ends

---
 src/libcork/ds/file-stream.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/libcork/ds/file-stream.c b/src/libcork/ds/file-stream.c
index a38b2b9..85d1b16 100644
--- a/src/libcork/ds/file-stream.c
+++ b/src/libcork/ds/file-stream.c
@@ -175,7 +175,9 @@ cork_fd_consumer__eof_close(struct cork_stream_consumer *vself)
     int  rc;
     struct cork_fd_consumer  *self =
         cork_container_of(vself, struct cork_fd_consumer, parent);
-    rii_check_posix(rc = close(self->fd));
+    int  fd = self->fd;
+    self->fd = -1;
+    rii_check_posix(rc = close(fd));
     return 0;
 }
 
@@ -187,6 +189,18 @@ cork_fd_consumer__free(struct cork_stream_consumer *vself)
     cork_delete(struct cork_fd_consumer, self);
 }
 
+static void
+cork_fd_consumer__free_close(struct cork_stream_consumer *vself)
+{
+    struct cork_fd_consumer  *self =
+        cork_container_of(vself, struct cork_fd_consumer, parent);
+    /* The file is still open if the stream never reached its end. */
+    if (self->fd != -1) {
+        close(self->fd);
+    }
+    cork_fd_consumer__free(vself);
+}
+
 struct cork_stream_consumer *
 cork_fd_consumer_new(int fd)
 {
@@ -210,7 +224,7 @@ cork_file_from_path_consumer_new(const char *path, int flags)
     self = cork_new(struct cork_fd_consumer);
     self->parent.data = cork_fd_consumer__data;
     self->parent.eof = cork_fd_consumer__eof_close;
-    self->parent.free = cork_fd_consumer__free;
+    self->parent.free = cork_fd_consumer__free_close;
     self->fd = fd;
     return &self->parent;
 }
-- 
2.43.0


From 0515f703749b5df68249b56a836b44c9ba8c03b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:14 +0000
Subject: [PATCH 14/53] fix: a stream consumer that creates its file gives it a
 mode

---
 src/libcork/ds/file-stream.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcork/ds/file-stream.c b/src/libcork/ds/file-stream.c
index 85d1b16..474acea 100644
--- a/src/libcork/ds/file-stream.c
+++ b/src/libcork/ds/file-stream.c
@@ -75,7 +75,7 @@ cork_consume_file_from_path(struct cork_stream_consumer *consumer,
                             const char *path, int flags)
 {
     int  fd;
-    rii_check_posix(fd = open(path, flags));
+    rii_check_posix(fd = open(path, flags, 0666));
     ei_check(cork_consume_fd(consumer, fd));
     rii_check_posix(close(fd));
     return 0;
@@ -220,7 +220,7 @@ cork_file_from_path_consumer_new(const char *path, int flags)
     int  fd;
     struct cork_fd_consumer  *self;
 
-    rpi_check_posix(fd = open(path, flags));
+    rpi_check_posix(fd = open(path, flags, 0666));
     self = cork_new(struct cork_fd_consumer);
     self->parent.data = cork_fd_consumer__data;
     self->parent.eof = cork_fd_consumer__eof_close;
-- 
2.43.0


From 3fc7a206218613675c39babb38007b1356f3c36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:03 +0000
Subject: [PATCH 15/53] fix: make the pipes we read a subprocess's output from
 non-blocking

O_NONBLOCK is a file status flag (F_SETFL), not a file descriptor flag
(F_SETFD), so draining one stream blocked until the child wrote to it, and a
child that filled the other pipe in the meantime deadlocked with its parent.
---
 src/libcork/posix/subprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index b1d23a5..6d7de01 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -134,9 +134,9 @@ cork_read_pipe_open(struct cork_read_pipe *p)
         rii_check_posix(pipe(p->fds));
         DEBUG("[read]   Got read=%d write=%d\n", p->fds[0], p->fds[1]);
         DEBUG("[read]   Setting non-blocking flag on read pipe\n");
-        ei_check_posix(flags = fcntl(p->fds[0], F_GETFD));
+        ei_check_posix(flags = fcntl(p->fds[0], F_GETFL));
         flags |= O_NONBLOCK;
-        ei_check_posix(fcntl(p->fds[0], F_SETFD, flags));
+        ei_check_posix(fcntl(p->fds[0], F_SETFL, flags));
     }
 
     p->first = true;
-- 
2.43.0


From e4f860efc02779753038d54eb7332873b3f3e42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:03 +0000
Subject: [PATCH 16/53] fix: cork_subprocess_drain reports no progress when
 there was none

---
 src/libcork/posix/subprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 6d7de01..f2ad87c 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -549,7 +549,7 @@ cork_subprocess_drain_(struct cork_subprocess *self, bool *progress)
 bool
 cork_subprocess_drain(struct cork_subprocess *self)
 {
-    bool  progress;
+    bool  progress = false;
     cork_subprocess_drain_(self, &progress);
     return progress;
 }
-- 
2.43.0


From 8e1f4991410f02e3aeff86e11f61894bd74f92aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:03 +0000
Subject: [PATCH 17/53] fix: write all of the data that is sent to a
 subprocess's stdin

A signal can interrupt a write to a full pipe after part of the data has been
transferred (or before any has).
---
 src/libcork/posix/subprocess.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index f2ad87c..260cff5 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -243,7 +243,17 @@ cork_write_pipe__data(struct cork_stream_consumer *consumer,
 {
     struct cork_write_pipe  *p =
         cork_container_of(consumer, struct cork_write_pipe, consumer);
-    rii_check_posix(write(p->fds[1], buf, size));
+    const char  *curr = buf;
+    while (size > 0) {
+        ssize_t  bytes_written = write(p->fds[1], curr, size);
+        if (bytes_written >= 0) {
+            curr += bytes_written;
+            size -= bytes_written;
+        } else if (errno != EINTR) {
+            cork_system_error_set();
+            return -1;
+        }
+    }
     return 0;
 }
 
-- 
2.43.0


From c4a73bcdf6176cdae1eab6da870e819a7d40761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:03 +0000
Subject: [PATCH 18/53] fix: the exit code of a subprocess is the one its body
 returned

As documented, the exit code is the value that the run function returned, as
long as it can be represented.  Also don't print a missing error message.
---
 src/libcork/posix/subprocess.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 260cff5..ca3ee0f 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -449,8 +449,10 @@ cork_subprocess_start(struct cork_subprocess *self)
         if (CORK_LIKELY(rc == 0)) {
             _exit(EXIT_SUCCESS);
         } else {
-            fprintf(stderr, "%s\n", cork_error_message());
-            _exit(EXIT_FAILURE);
+            if (cork_error_occurred()) {
+                fprintf(stderr, "%s\n", cork_error_message());
+            }
+            _exit((rc > 0 && rc <= 255)? rc: EXIT_FAILURE);
         }
     } else if (pid < 0) {
         /* Error forking */
-- 
2.43.0


From 7c085bcd80e3e9ff0efcfc0e899eec9ba82adba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:04 +0000
Subject: [PATCH 19/53] fix: executed programs don't inherit the pipes of other
 subprocesses

Otherwise a child whose stdin has been ended doesn't see the end-of-file until
all of the programs that were started after it have exited, which deadlocks if
we wait for it first.
---
 src/libcork/posix/subprocess.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index ca3ee0f..2f77801 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -137,6 +137,9 @@ cork_read_pipe_open(struct cork_read_pipe *p)
         ei_check_posix(flags = fcntl(p->fds[0], F_GETFL));
         flags |= O_NONBLOCK;
         ei_check_posix(fcntl(p->fds[0], F_SETFL, flags));
+
+        /* The programs that other children execute must not inherit our end. */
+        ei_check_posix(fcntl(p->fds[0], F_SETFD, FD_CLOEXEC));
     }
 
     p->first = true;
@@ -299,7 +302,14 @@ cork_write_pipe_open(struct cork_write_pipe *p)
     DEBUG("[write] Opening writer pipe\n");
     rii_check_posix(pipe(p->fds));
     DEBUG("[write]   Got read=%d write=%d\n", p->fds[0], p->fds[1]);
+    /* The programs that other children execute must not inherit our end: as
+     * long as they have it open, this child never sees the end of its stdin. */
+    ei_check_posix(fcntl(p->fds[1], F_SETFD, FD_CLOEXEC));
     return 0;
+
+error:
+    cork_write_pipe_close(p);
+    return -1;
 }
 
 static int
-- 
2.43.0


From b044b789542a3074133774f4123ccf60f98339e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:04 +0000
Subject: [PATCH 20/53] fix: close a subprocess's pipes if we cannot fork

Otherwise waiting for a group that couldn't be started never ends.
---
 src/libcork/posix/subprocess.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 2f77801..0f7a562 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -467,6 +467,9 @@ cork_subprocess_start(struct cork_subprocess *self)
     } else if (pid < 0) {
         /* Error forking */
         cork_system_error_set();
+        cork_write_pipe_close(&self->stdin_pipe);
+        cork_read_pipe_close(&self->stdout_pipe);
+        cork_read_pipe_close(&self->stderr_pipe);
         return -1;
     } else {
         /* Parent process */
-- 
2.43.0


From 766c658ba63377acb89b668c17942a13b2772d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:04 +0000
Subject: [PATCH 21/53] fix: a signal doesn't keep us from reaping a terminated
 subprocess

When waiting for an aborted subprocess was interrupted, it stayed a zombie and
the rest of its group kept on running.
---
 src/libcork/posix/subprocess.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 0f7a562..0b967df 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -487,7 +487,10 @@ cork_subprocess_reap(struct cork_subprocess *self, int flags, bool *progress)
 {
     int  pid;
     int  status;
-    rii_check_posix(pid = waitpid(self->pid, &status, flags));
+    do {
+        pid = waitpid(self->pid, &status, flags);
+    } while (pid == -1 && errno == EINTR);
+    rii_check_posix(pid);
     if (pid == self->pid) {
         *progress = true;
         self->pid = 0;
-- 
2.43.0


From 4f6e55ead97d925c7fd3e66176ab5a31737f4fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:04 +0000
Subject: [PATCH 22/53] fix: an error while draining subprocesses terminates
 them

As documented; callers free a group whose wait failed without aborting it.
---
 src/libcork/posix/subprocess.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 0b967df..845e2f1 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -578,7 +578,10 @@ bool
 cork_subprocess_drain(struct cork_subprocess *self)
 {
     bool  progress = false;
-    cork_subprocess_drain_(self, &progress);
+    if (cork_subprocess_drain_(self, &progress) == -1) {
+        cork_subprocess_abort(self);
+        return false;
+    }
     return progress;
 }
 
@@ -589,12 +592,16 @@ cork_subprocess_wait(struct cork_subprocess *self)
     bool  progress;
     while (!cork_subprocess_is_finished(self)) {
         progress = false;
-        rii_check(cork_subprocess_drain_(self, &progress));
+        ei_check(cork_subprocess_drain_(self, &progress));
         if (!progress) {
             cork_subprocess_yield(&spin_count);
         }
     }
     return 0;
+
+error:
+    cork_subprocess_abort(self);
+    return -1;
 }
 
 
@@ -669,7 +676,10 @@ bool
 cork_subprocess_group_drain(struct cork_subprocess_group *group)
 {
     bool  progress = false;
-    cork_subprocess_group_drain_(group, &progress);
+    if (cork_subprocess_group_drain_(group, &progress) == -1) {
+        cork_subprocess_group_terminate(group);
+        return false;
+    }
     return progress;
 }
 
@@ -681,10 +691,14 @@ cork_subprocess_group_wait(struct cork_subprocess_group *group)
     DEBUG("Waiting for subprocess group to finish\n");
     while (!cork_subprocess_group_is_finished(group)) {
         progress = false;
-        rii_check(cork_subprocess_group_drain_(group, &progress));
+        ei_check(cork_subprocess_group_drain_(group, &progress));
         if (!progress) {
             cork_subprocess_yield(&spin_count);
         }
     }
     return 0;
+
+error:
+    cork_subprocess_group_terminate(group);
+    return -1;
 }
-- 
2.43.0


From c31dc789eaa98fbd05748b398d5d426942ab0a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:14 +0000
Subject: [PATCH 23/53] fix: drop a redundant retry when reaping a subprocess

rii_check_posix already retries an interrupted call; this reverts 766c658.
---
 src/libcork/posix/subprocess.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 845e2f1..9a60d27 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -487,10 +487,7 @@ cork_subprocess_reap(struct cork_subprocess *self, int flags, bool *progress)
 {
     int  pid;
     int  status;
-    do {
-        pid = waitpid(self->pid, &status, flags);
-    } while (pid == -1 && errno == EINTR);
-    rii_check_posix(pid);
+    rii_check_posix(pid = waitpid(self->pid, &status, flags));
     if (pid == self->pid) {
         *progress = true;
         self->pid = 0;
-- 
2.43.0


From 95eb9aa314e24025ccea9457d1c7e501f7cbf609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:07 +0000
Subject: [PATCH 24/53] fix: don't free a removed environment variable twice

cork_env_remove gave the removed variable back to us after the hash table
had already freed it (and left the pointer uninitialised when there was no
such variable).
---
 src/libcork/posix/env.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/libcork/posix/env.c b/src/libcork/posix/env.c
index 6426f68..b79dffd 100644
--- a/src/libcork/posix/env.c
+++ b/src/libcork/posix/env.c
@@ -170,11 +170,8 @@ cork_env_remove(struct cork_env *env, const char *name)
     if (env == NULL) {
         unsetenv(name);
     } else {
-        void  *old_var;
-        cork_hash_table_delete(env->variables, (void *) name, NULL, &old_var);
-        if (old_var != NULL) {
-            cork_env_var_free(old_var);
-        }
+        /* The hash table frees the variable for us. */
+        cork_hash_table_delete(env->variables, (void *) name, NULL, NULL);
     }
 }
 
-- 
2.43.0


From e9cce5c2cc47e2330efb79d3857cfaf0797d8a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:07 +0000
Subject: [PATCH 25/53] fix: cloning a cleared environment gives an empty
 collection

---
 src/libcork/posix/env.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/env.c b/src/libcork/posix/env.c
index b79dffd..872519b 100644
--- a/src/libcork/posix/env.c
+++ b/src/libcork/posix/env.c
@@ -100,7 +100,8 @@ cork_env_clone_current(void)
     char  **curr;
     struct cork_env  *env = cork_env_new();
 
-    for (curr = environ; *curr != NULL; curr++) {
+    /* environ is NULL if the environment has been cleared. */
+    for (curr = environ; curr != NULL && *curr != NULL; curr++) {
         const char  *entry = *curr;
         const char  *equal;
 
-- 
2.43.0


From af8548f7a2b4bcb9efc9903877c7c91d2d92c1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:07 +0000
Subject: [PATCH 26/53] fix: cork_env_add_printf works on the process
 environment

---
 src/libcork/posix/env.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/env.c b/src/libcork/posix/env.c
index 872519b..fc3dc35 100644
--- a/src/libcork/posix/env.c
+++ b/src/libcork/posix/env.c
@@ -151,8 +151,15 @@ void
 cork_env_add_vprintf(struct cork_env *env, const char *name,
                      const char *format, va_list args)
 {
-    cork_buffer_vprintf(&env->buffer, format, args);
-    cork_env_add_internal(env, name, env->buffer.buf);
+    if (env == NULL) {
+        struct cork_buffer  value = CORK_BUFFER_INIT();
+        cork_buffer_vprintf(&value, format, args);
+        cork_env_add_internal(NULL, name, value.buf);
+        cork_buffer_done(&value);
+    } else {
+        cork_buffer_vprintf(&env->buffer, format, args);
+        cork_env_add_internal(env, name, env->buffer.buf);
+    }
 }
 
 void
-- 
2.43.0


From 8ea6ecb946de7727a85d6257c04a58a5a16ee5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:19 +0000
Subject: [PATCH 27/53] fix: a failed exec doesn't add a NULL parameter to the
 specification

---
 src/libcork/posix/exec.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/exec.c b/src/libcork/posix/exec.c
index 11d08f1..bf3deed 100644
--- a/src/libcork/posix/exec.c
+++ b/src/libcork/posix/exec.c
@@ -165,11 +165,14 @@ cork_exec_set_cwd(struct cork_exec *exec, const char *directory)
 int
 cork_exec_run(struct cork_exec *exec)
 {
+    size_t  param_count = cork_array_size(&exec->params);
     const char  **params;
 
-    /* Make sure the parameter array is NULL-terminated. */
-    cork_array_append(&exec->params, NULL);
+    /* Make sure the parameter array is NULL-terminated, without making the
+     * terminator one of the parameters. */
+    cork_array_ensure_size(&exec->params, param_count + 1);
     params = cork_array_elements(&exec->params);
+    params[param_count] = NULL;
 
     /* Fill in the requested environment */
     if (exec->env != NULL) {
-- 
2.43.0


From 2a733a184b71b8ce8d8f7255ae6c225b1f322bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:19 +0000
Subject: [PATCH 28/53] fix: cleanup functions can register other cleanup
 functions

---
 src/libcork/posix/process.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/process.c b/src/libcork/posix/process.c
index fbafc9c..440cc36 100644
--- a/src/libcork/posix/process.c
+++ b/src/libcork/posix/process.c
@@ -56,7 +56,7 @@ static struct cork_dllist  cleanup_entries = CORK_DLLIST_INIT(cleanup_entries);
 static bool  cleanup_registered = false;
 
 static void
-cork_cleanup_call_one(struct cork_dllist_item *item, void *user_data)
+cork_cleanup_call_one(struct cork_dllist_item *item)
 {
     struct cork_cleanup_entry  *entry =
         cork_container_of(item, struct cork_cleanup_entry, item);
@@ -73,7 +73,13 @@ cork_cleanup_call_one(struct cork_dllist_item *item, void *user_data)
 static void
 cork_cleanup_call_all(void)
 {
-    cork_dllist_map(&cleanup_entries, cork_cleanup_call_one, NULL);
+    struct cork_dllist_item  *item;
+    /* A cleanup function might register another one, so each entry must be out
+     * of the list before we free it. */
+    while ((item = cork_dllist_head(&cleanup_entries)) != NULL) {
+        cork_dllist_remove(item);
+        cork_cleanup_call_one(item);
+    }
 }
 
 static void
-- 
2.43.0


From feaeea0351eca60018c958213721c4400f7281ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:13 +0000
Subject: [PATCH 29/53] fix: cleanup functions can still use the error
 condition

---
 src/libcork/core/error.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/libcork/core/error.c b/src/libcork/core/error.c
index a5beec6..8e0d07b 100644
--- a/src/libcork/core/error.c
+++ b/src/libcork/core/error.c
@@ -9,6 +9,7 @@
 
 #include <assert.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdarg.h>
 #include <string.h>
 
@@ -56,6 +57,8 @@ cork_error_free(struct cork_error *error)
 
 static struct cork_error * volatile  errors;
 
+cork_tls(struct cork_error *, cork_error_);
+
 cork_once_barrier(cork_error_list);
 
 static void
@@ -67,17 +70,18 @@ cork_error_list_done(void)
         next = curr->next;
         cork_error_free(curr);
     }
+    errors = NULL;
+    /* If anyone needs the error condition after this, start a new one. */
+    *cork_error__get() = NULL;
 }
 
 static void
 cork_error_list_init(void)
 {
-    cork_cleanup_at_exit(0, cork_error_list_done);
+    /* Other cleanup functions might still use the error condition. */
+    cork_cleanup_at_exit(INT_MAX, cork_error_list_done);
 }
 
-
-cork_tls(struct cork_error *, cork_error_);
-
 static struct cork_error *
 cork_error_get(void)
 {
-- 
2.43.0


From dba7dc4e3ad0fdcf76f12bdc69ae38c2023c5938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:14 +0000
Subject: [PATCH 30/53] fix: removing a symbolic link leaves alone what it
 refers to

cork_file_remove followed symbolic links, so that a recursive removal
emptied directories outside of the tree, and dangling links could not be
removed.  It also relied on an earlier look at the file.
---
 src/libcork/posix/files.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index ea638a9..e923184 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -641,16 +641,22 @@ int
 cork_file_remove(struct cork_file *file, unsigned int flags)
 {
     DEBUG("rm %s\n", cork_path_get(file->path));
-    rii_check(cork_file_stat(file));
-
-    if (file->type == CORK_FILE_MISSING) {
-        if (flags & CORK_FILE_PERMISSIVE) {
+    struct stat  info;
+
+    /* A symbolic link is removed itself; we must not touch what it refers to.
+     * And we might have looked at the file before it was last changed. */
+    cork_file_reset(file);
+    if (lstat(cork_path_get(file->path), &info) == -1) {
+        if (errno != ENOENT && errno != ENOTDIR) {
+            cork_system_error_set();
+            return -1;
+        } else if (flags & CORK_FILE_PERMISSIVE) {
             return 0;
         } else {
             cork_system_error_set_explicit(ENOENT);
             return -1;
         }
-    } else if (file->type == CORK_FILE_DIRECTORY) {
+    } else if (S_ISDIR(info.st_mode)) {
         if (flags & CORK_FILE_RECURSIVE) {
             /* The user asked that we delete the contents of the directory
              * first. */
-- 
2.43.0


From 481202e38f741a6d67c7a3f2e9158c709dacbe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:14 +0000
Subject: [PATCH 31/53] fix: set an error condition when a file cannot be
 removed

---
 src/libcork/posix/files.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index e923184..30771ad 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -667,7 +667,7 @@ cork_file_remove(struct cork_file *file, unsigned int flags)
         rii_check_posix(rmdir(cork_path_get(file->path)));
         return 0;
     } else {
-        rii_check(unlink(cork_path_get(file->path)));
+        rii_check_posix(unlink(cork_path_get(file->path)));
         return 0;
     }
 }
-- 
2.43.0


From 2e6125f1523351c9e3fcb454275d6f5b45f1ae8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:14 +0000
Subject: [PATCH 32/53] fix: cork_file_mkdir doesn't rely on an earlier look at
 the file

---
 src/libcork/posix/files.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 30771ad..d808587 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -626,7 +626,12 @@ int
 cork_file_mkdir(struct cork_file *file, cork_file_mode mode,
                 unsigned int flags)
 {
-    return cork_file_mkdir_one(file, mode, flags);
+    int  rc;
+    /* What we knew about the file might be out of date, and will be. */
+    cork_file_reset(file);
+    rc = cork_file_mkdir_one(file, mode, flags);
+    cork_file_reset(file);
+    return rc;
 }
 
 static int
-- 
2.43.0


From fd9362e4a6dd42b37a0dce6d4cfdfc56f43f47dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:14 +0000
Subject: [PATCH 33/53] fix: recursive mkdir of a path with redundant slashes

---
 src/libcork/posix/files.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index d808587..f65f8f3 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -598,7 +598,13 @@ cork_file_mkdir_one(struct cork_file *file, cork_file_mode mode,
     /* If the caller asked for a recursive mkdir, then make sure the parent
      * directory exists. */
     if (flags & CORK_FILE_RECURSIVE) {
-        struct cork_path  *parent = cork_path_dirname(file->path);
+        struct cork_path  *parent = cork_path_clone(file->path);
+        /* The directory that contains "a/b/" is "a", not "a/b". */
+        while (parent->given.size > 1 &&
+               cork_buffer_char(&parent->given, parent->given.size - 1) == '/') {
+            cork_path_truncate(parent, parent->given.size - 1);
+        }
+        cork_path_set_dirname(parent);
         DEBUG("  Checking parent %s\n", cork_path_get(parent));
         if (parent->given.size == 0) {
             /* There is no parent; we're either at the filesystem root (for an
-- 
2.43.0


From f5d7e15806bae5409b914f717dc8c492b45aa7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:14 +0000
Subject: [PATCH 34/53] fix: permissive mkdir of a directory that someone else
 creates meanwhile

---
 src/libcork/posix/files.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index f65f8f3..d5c1a88 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -624,7 +624,21 @@ cork_file_mkdir_one(struct cork_file *file, cork_file_mode mode,
 
     /* Create the directory already! */
     DEBUG("  Creating %s\n", cork_path_get(file->path));
-    rii_check_posix(mkdir(cork_path_get(file->path), mode));
+    if (mkdir(cork_path_get(file->path), mode) == -1) {
+        int  mkdir_errno = errno;
+        if (mkdir_errno == EEXIST && (flags & CORK_FILE_PERMISSIVE)) {
+            /* The directory has come into being since we looked, because it's
+             * another name for one that we've created ("a/."), or because
+             * someone else has created it. */
+            cork_file_reset(file);
+            rii_check(cork_file_stat(file));
+            if (file->type == CORK_FILE_DIRECTORY) {
+                return 0;
+            }
+        }
+        cork_system_error_set_explicit(mkdir_errno);
+        return -1;
+    }
     return 0;
 }
 
-- 
2.43.0


From 491e10ca8a41aea511adc87790f2a0299afb0120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:14 +0000
Subject: [PATCH 35/53] fix: iterating a directory returns the iterator's
 result

As documented, instead of -1.  Nor do we look at each entry ourselves, which
made the iteration fail for links that cannot be resolved.
---
 src/libcork/posix/files.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index d5c1a88..656e74c 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -522,6 +522,7 @@ cork_file_iterate_directory(struct cork_file *file,
     size_t  dir_path_size;
     struct cork_path  *child_path;
     struct cork_file  child_file;
+    int  rc;
 
     rip_check_posix(dir = opendir(cork_path_get(file->path)));
     child_path = cork_path_clone(file->path);
@@ -537,10 +538,7 @@ cork_file_iterate_directory(struct cork_file *file,
         }
 
         cork_path_append(child_path, entry->d_name);
-        ei_check(cork_file_stat(&child_file));
-
-        /* If the entry is a subdirectory, recurse into it. */
-        ei_check(iterator(&child_file, entry->d_name, user_data));
+        ei_check(rc = iterator(&child_file, entry->d_name, user_data));
 
         /* Remove this entry name from the path buffer. */
         cork_path_truncate(child_path, dir_path_size);
@@ -560,6 +558,7 @@ cork_file_iterate_directory(struct cork_file *file,
     /* Check errno immediately after the while loop terminates */
     if (CORK_UNLIKELY(errno != 0)) {
         cork_system_error_set();
+        rc = -1;
         goto error;
     }
 
@@ -570,7 +569,7 @@ cork_file_iterate_directory(struct cork_file *file,
 error:
     cork_file_done(&child_file);
     rii_check_posix(closedir(dir));
-    return -1;
+    return rc;
 }
 
 static int
-- 
2.43.0


From 876cbc27ccff3f5c9cc883828cd30474bb43d53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:14 +0000
Subject: [PATCH 36/53] fix: an empty path list is rendered as an empty string

---
 src/libcork/posix/files.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 656e74c..9112c39 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -296,6 +296,8 @@ cork_path_list_new_empty(void)
     struct cork_path_list  *list = cork_new(struct cork_path_list);
     cork_array_init(&list->array);
     cork_buffer_init(&list->string);
+    cork_buffer_ensure_size(&list->string, 16);
+    cork_buffer_set(&list->string, "", 0);
     return list;
 }
 
-- 
2.43.0


From c6cff6d9bf7aaf47a4a415cb21861bfd7c5c39a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:14 +0000
Subject: [PATCH 37/53] fix: no double slash when making a path absolute in the
 root directory

---
 src/libcork/posix/files.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libcork/posix/files.c b/src/libcork/posix/files.c
index 9112c39..2f0c708 100644
--- a/src/libcork/posix/files.c
+++ b/src/libcork/posix/files.c
@@ -159,7 +159,9 @@ cork_path_set_absolute(struct cork_path *path)
     ep_check_posix(getcwd(buf.buf, PATH_MAX));
     buf.size = strlen(buf.buf);
 #endif
-    cork_buffer_append(&buf, "/", 1);
+    if (cork_buffer_char(&buf, buf.size - 1) != '/') {
+        cork_buffer_append(&buf, "/", 1);
+    }
     cork_buffer_append_copy(&buf, &path->given);
     cork_buffer_done(&path->given);
     path->given = buf;
-- 
2.43.0


From 0c3dd8a444c44acb3c24af2ac807e3cc3fe44403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:14 +0000
Subject: [PATCH 38/53] fix: walking a directory stops at and returns any other
 result

A result other than CORK_SKIP_DIRECTORY from enter_directory was ignored, and
the other callbacks' results came out as -1.
---
 src/libcork/posix/directory-walker.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/libcork/posix/directory-walker.c b/src/libcork/posix/directory-walker.c
index 74aab13..21b4225 100644
--- a/src/libcork/posix/directory-walker.c
+++ b/src/libcork/posix/directory-walker.c
@@ -31,6 +31,7 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
     DIR  *dir = NULL;
     struct dirent  *entry;
     size_t  dir_path_size;
+    int  rc = -1;
 
     rip_check_posix(dir = opendir(path->buf));
 
@@ -48,21 +49,23 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
 
         /* Stat the directory entry */
         cork_buffer_append_string(path, entry->d_name);
+        rc = -1;
         ei_check_posix(stat(path->buf, &info));
 
         /* If the entry is a subdirectory, recurse into it. */
         if (S_ISDIR(info.st_mode)) {
-            int  rc = cork_dir_walker_enter_directory
+            rc = cork_dir_walker_enter_directory
                 (w, path->buf, path->buf + root_path_size,
                  path->buf + dir_path_size);
             if (rc != CORK_SKIP_DIRECTORY) {
-                ei_check(cork_walk_one_directory(w, path, root_path_size));
-                ei_check(cork_dir_walker_leave_directory
+                ei_check(rc);
+                ei_check(rc = cork_walk_one_directory(w, path, root_path_size));
+                ei_check(rc = cork_dir_walker_leave_directory
                          (w, path->buf, path->buf + root_path_size,
                           path->buf + dir_path_size));
             }
         } else if (S_ISREG(info.st_mode)) {
-            ei_check(cork_dir_walker_file
+            ei_check(rc = cork_dir_walker_file
                      (w, path->buf, path->buf + root_path_size,
                       path->buf + dir_path_size));
         }
@@ -85,6 +88,7 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
     /* Check errno immediately after the while loop terminates */
     if (CORK_UNLIKELY(errno != 0)) {
         cork_system_error_set();
+        rc = -1;
         goto error;
     }
 
@@ -97,7 +101,7 @@ error:
     if (dir != NULL) {
         rii_check_posix(closedir(dir));
     }
-    return -1;
+    return rc;
 }
 
 int
-- 
2.43.0


From cc288bc9040d8f223ba5af26cd71b57a26abeea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:27 +0000
Subject: [PATCH 39/53] fix: a dangling link doesn't keep us from walking a
 directory

---
 src/libcork/posix/directory-walker.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/directory-walker.c b/src/libcork/posix/directory-walker.c
index 21b4225..c89965a 100644
--- a/src/libcork/posix/directory-walker.c
+++ b/src/libcork/posix/directory-walker.c
@@ -49,8 +49,17 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
 
         /* Stat the directory entry */
         cork_buffer_append_string(path, entry->d_name);
-        rc = -1;
-        ei_check_posix(stat(path->buf, &info));
+        rc = stat(path->buf, &info);
+        if (rc == -1) {
+            if (errno == ENOENT || errno == ENOTDIR) {
+                /* A dangling link is neither a file nor a directory. */
+                cork_buffer_truncate(path, dir_path_size);
+                errno = 0;
+                continue;
+            }
+            cork_system_error_set();
+            goto error;
+        }
 
         /* If the entry is a subdirectory, recurse into it. */
         if (S_ISDIR(info.st_mode)) {
-- 
2.43.0


From 9079ae8c61b7580b1dad399058807ee052ed18d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:27 +0000
Subject: [PATCH 40/53] fix: walking the root directory

---
 src/libcork/posix/directory-walker.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/libcork/posix/directory-walker.c b/src/libcork/posix/directory-walker.c
index c89965a..175b2f6 100644
--- a/src/libcork/posix/directory-walker.c
+++ b/src/libcork/posix/directory-walker.c
@@ -30,12 +30,16 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
 {
     DIR  *dir = NULL;
     struct dirent  *entry;
+    size_t  orig_path_size;
     size_t  dir_path_size;
     int  rc = -1;
 
     rip_check_posix(dir = opendir(path->buf));
 
-    cork_buffer_append(path, "/", 1);
+    orig_path_size = path->size;
+    if (cork_buffer_char(path, orig_path_size - 1) != '/') {
+        cork_buffer_append(path, "/", 1);
+    }
     dir_path_size = path->size;
     errno = 0;
     while ((entry = readdir(dir)) != NULL) {
@@ -102,7 +106,7 @@ cork_walk_one_directory(struct cork_dir_walker *w, struct cork_buffer *path,
     }
 
     /* Remove the trailing '/' from the path buffer. */
-    cork_buffer_truncate(path, dir_path_size - 1);
+    cork_buffer_truncate(path, orig_path_size);
     rii_check_posix(closedir(dir));
     return 0;
 
@@ -121,14 +125,15 @@ cork_walk_directory(const char *path, struct cork_dir_walker *w)
     struct cork_buffer  buf = CORK_BUFFER_INIT();
 
     /* Seed the buffer with the directory's path, ensuring that there's no
-     * trailing '/' */
+     * trailing '/' (unless it's the root directory) */
     cork_buffer_append_string(&buf, path);
     p = buf.buf;
-    while (p[buf.size-1] == '/') {
+    while (buf.size > 1 && p[buf.size-1] == '/') {
         buf.size--;
         p[buf.size] = '\0';
     }
-    rc = cork_walk_one_directory(w, &buf, buf.size + 1);
+    rc = cork_walk_one_directory
+        (w, &buf, (buf.size == 1 && p[0] == '/')? 1: buf.size + 1);
     cork_buffer_done(&buf);
     return rc;
 }
-- 
2.43.0


From de7068b49cecd073dce4d719950fb204129e6736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:15 +0000
Subject: [PATCH 41/53] fix: default xcalloc with a zero or too large size

An element size of zero divided by zero, and a total size that doesn't fit
into size_t stopped the process instead of returning NULL.
---
 src/libcork/core/allocator.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libcork/core/allocator.c b/src/libcork/core/allocator.c
index 8a70b3b..3d3a9c6 100644
--- a/src/libcork/core/allocator.c
+++ b/src/libcork/core/allocator.c
@@ -65,7 +65,9 @@ cork_alloc__default_xcalloc(const struct cork_alloc *alloc,
                             size_t count, size_t size)
 {
     void  *result;
-    assert(count < (SIZE_MAX / size));
+    if (CORK_UNLIKELY(size != 0 && count > (SIZE_MAX / size))) {
+        return NULL;
+    }
     result = cork_alloc_xmalloc(alloc, count * size);
     if (result != NULL) {
         memset(result, 0, count * size);
-- 
2.43.0


From 3b75ae365743bed543e2573e2d06a9346c105b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:15 +0000
Subject: [PATCH 42/53] fix: cork_cfree with an element size of zero

Divided by zero.
---
 include/libcork/core/allocator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcork/core/allocator.h b/include/libcork/core/allocator.h
index 01a9e92..60951cb 100644
--- a/include/libcork/core/allocator.h
+++ b/include/libcork/core/allocator.h
@@ -177,7 +177,7 @@ void
 cork_alloc_cfree(const struct cork_alloc *alloc, void *ptr,
                  size_t count, size_t size)
 {
-    assert(count < (SIZE_MAX / size));
+    assert(size == 0 || count <= (SIZE_MAX / size));
     return alloc->free(alloc, ptr, count * size);
 }
 
-- 
2.43.0


From 3b95a72c1e3b089072abd836ae3921a6531683a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:15 +0000
Subject: [PATCH 43/53] fix: cork_xreallocf of nothing doesn't free NULL

A custom (or the debug) allocator can only free what it has allocated.
---
 include/libcork/core/allocator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libcork/core/allocator.h b/include/libcork/core/allocator.h
index 60951cb..7bf9419 100644
--- a/include/libcork/core/allocator.h
+++ b/include/libcork/core/allocator.h
@@ -158,7 +158,9 @@ cork_alloc_xreallocf(const struct cork_alloc *alloc, void *ptr,
 {
     void  *result = alloc->xrealloc(alloc, ptr, old_size, new_size);
     if (result == NULL) {
-        alloc->free(alloc, ptr, old_size);
+        if (ptr != NULL) {
+            alloc->free(alloc, ptr, old_size);
+        }
         return NULL;
     } else {
         return result;
-- 
2.43.0


From 532afeb30ee337b4fe7bfa7127d32b5e105885b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:15 +0000
Subject: [PATCH 44/53] fix: a failed allocation under the debug allocator

It dereferenced NULL, and a size close to SIZE_MAX wrapped around.
---
 src/libcork/core/allocator.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libcork/core/allocator.c b/src/libcork/core/allocator.c
index 3d3a9c6..6e1efaf 100644
--- a/src/libcork/core/allocator.c
+++ b/src/libcork/core/allocator.c
@@ -395,7 +395,14 @@ static void *
 cork_debug_alloc__xmalloc(const struct cork_alloc *alloc, size_t size)
 {
     size_t  real_size = size + sizeof(size_t);
-    size_t  *base = cork_alloc_xmalloc(alloc->parent, real_size);
+    size_t  *base;
+    if (CORK_UNLIKELY(real_size < size)) {
+        return NULL;
+    }
+    base = cork_alloc_xmalloc(alloc->parent, real_size);
+    if (CORK_UNLIKELY(base == NULL)) {
+        return NULL;
+    }
     *base = size;
     return base + 1;
 }
-- 
2.43.0


From 3f8a3b2fade5bfb92f087e125302deccc4c4459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:15 +0000
Subject: [PATCH 45/53] fix: reallocating to a size of zero

With the standard library's realloc this freed the old block and returned
NULL, which was taken for a failure: the block was freed again.
---
 src/libcork/core/allocator.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libcork/core/allocator.c b/src/libcork/core/allocator.c
index 6e1efaf..584ef9d 100644
--- a/src/libcork/core/allocator.c
+++ b/src/libcork/core/allocator.c
@@ -324,7 +324,8 @@ cork_stdlib_alloc__realloc(const struct cork_alloc *alloc, void *ptr,
     }
     return result;
 #else
-    void  *result = realloc(ptr, new_size);
+    /* realloc(ptr, 0) might free ptr and return NULL. */
+    void  *result = realloc(ptr, (new_size == 0)? 1: new_size);
     if (result == NULL) {
         free(ptr);
         abort();
@@ -350,7 +351,9 @@ static void *
 cork_stdlib_alloc__xrealloc(const struct cork_alloc *alloc, void *ptr,
                             size_t old_size, size_t new_size)
 {
-    return realloc(ptr, new_size);
+    /* realloc(ptr, 0) might free ptr and return NULL, which our caller would
+     * take for a failure that has left ptr alone. */
+    return realloc(ptr, (new_size == 0)? 1: new_size);
 }
 
 static void
-- 
2.43.0


From b07dd61499d81ed0b49fe9408338ad5f2ae5b1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:55 +0000
Subject: [PATCH 46/53] fix: an IPv4 address with an empty octet is refused

---
 src/libcork/core/ip-address.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libcork/core/ip-address.c b/src/libcork/core/ip-address.c
index 6aebd34..63f556a 100644
--- a/src/libcork/core/ip-address.c
+++ b/src/libcork/core/ip-address.c
@@ -66,6 +66,10 @@ cork_ipv4_parse(struct cork_ipv4 *addr, const char *str)
                 if (CORK_UNLIKELY(octets == 3)) {
                     goto parse_error;
                 }
+                /* Every octet needs at least one digit. */
+                if (CORK_UNLIKELY(!seen_digit_in_octet)) {
+                    goto parse_error;
+                }
                 DEBUG("octet %u = %u\n", octets, digit);
                 result[octets] = digit;
                 digit = 0;
-- 
2.43.0


From 0f4aa22c4f3b6458196c935f3b4e1789de3e1716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:55 +0000
Subject: [PATCH 47/53] fix: an IPv6 address whose double-colon stands for no
 hextet is refused

---
 src/libcork/core/ip-address.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libcork/core/ip-address.c b/src/libcork/core/ip-address.c
index 63f556a..a69ac03 100644
--- a/src/libcork/core/ip-address.c
+++ b/src/libcork/core/ip-address.c
@@ -311,6 +311,12 @@ cork_ipv6_init(struct cork_ipv6 *addr, const char *str)
         char  parsed_result[CORK_IPV6_STRING_LENGTH];
 #endif
         unsigned int  after_count = hextets_seen - before_count;
+
+        /* The double-colon must stand for at least one hextet. */
+        if (CORK_UNLIKELY(hextets_seen == 8)) {
+            goto parse_error;
+        }
+
         DEBUG("Saw double-colon; %u hextets before, %u after\n",
               before_count, after_count);
         memset(addr, 0, sizeof(struct cork_ipv6));
-- 
2.43.0


From dad8b3a58420d3570f7b5e73e525e8d95a681ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:55 +0000
Subject: [PATCH 48/53] fix: an IPv6 network's host bits are those after the
 prefix in network order

---
 src/libcork/core/ip-address.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcork/core/ip-address.c b/src/libcork/core/ip-address.c
index a69ac03..74980dc 100644
--- a/src/libcork/core/ip-address.c
+++ b/src/libcork/core/ip-address.c
@@ -462,8 +462,8 @@ cork_ipv6_is_valid_network(const struct cork_ipv6 *addr,
         cidr_mask[1] = UINT64_C(0xffffffffffffffff);
     }
 
-    return (CORK_UINT64_BIG_TO_HOST(addr->_.u64[0] & cidr_mask[0]) == 0) &&
-           (CORK_UINT64_BIG_TO_HOST(addr->_.u64[1] & cidr_mask[1]) == 0);
+    return ((CORK_UINT64_BIG_TO_HOST(addr->_.u64[0]) & cidr_mask[0]) == 0) &&
+           ((CORK_UINT64_BIG_TO_HOST(addr->_.u64[1]) & cidr_mask[1]) == 0);
 }
 
 
-- 
2.43.0


From 3fa2acc9c5b5bbf6e5fb722e61ac9d2f037b252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:14 +0000
Subject: [PATCH 49/53] fix: a timestamp's fraction doesn't round up to a full
 second

---
 include/libcork/core/timestamp.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcork/core/timestamp.h b/include/libcork/core/timestamp.h
index 2c828c6..efab572 100644
--- a/include/libcork/core/timestamp.h
+++ b/include/libcork/core/timestamp.h
@@ -83,7 +83,8 @@ cork_timestamp_gsec_to_units(const cork_timestamp ts, uint64_t denom)
     gsec += half;
     gsec *= denom;
     gsec >>= 32;
-    return gsec;
+    /* The last half unit of a second can't be rounded up to a full second. */
+    return (gsec < denom)? gsec: denom - 1;
 }
 
 CORK_INLINE
-- 
2.43.0


From bf8eeda1f86d77c6d418aa9819d17f667f9e98d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:14 +0000
Subject: [PATCH 50/53] fix: an overly long width in a timestamp format is an
 error

---
 src/libcork/core/timestamp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libcork/core/timestamp.c b/src/libcork/core/timestamp.c
index dc059c6..3d9ae78 100644
--- a/src/libcork/core/timestamp.c
+++ b/src/libcork/core/timestamp.c
@@ -77,6 +77,10 @@ cork_timestamp_format_parts(const cork_timestamp ts, struct tm *tm,
         while (is_digit(*spec)) {
             width *= 10;
             width += (*spec++ - '0');
+            if (width > 10) {
+                /* Too wide already; don't let it overflow. */
+                width = 10;
+            }
         }
 
         switch (*spec) {
-- 
2.43.0


From 41d86d061515fa4a6c9050d894abf090ad42d20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:13 +0000
Subject: [PATCH 51/53] fix: byte-swapping macros group their argument

---
 include/libcork/core/byte-order.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/libcork/core/byte-order.h b/include/libcork/core/byte-order.h
index 46771a2..7803779 100644
--- a/include/libcork/core/byte-order.h
+++ b/include/libcork/core/byte-order.h
@@ -54,24 +54,24 @@
  * original contents if it happens to be a variable.  */
 
 #define CORK_SWAP_UINT16(__u16) \
-    (((((uint16_t) __u16) & 0xff00u) >> 8) | \
-     ((((uint16_t) __u16) & 0x00ffu) << 8))
+    (((((uint16_t) (__u16)) & 0xff00u) >> 8) | \
+     ((((uint16_t) (__u16)) & 0x00ffu) << 8))
 
 #define CORK_SWAP_UINT32(__u32) \
-    (((((uint32_t) __u32) & 0xff000000u) >> 24) | \
-     ((((uint32_t) __u32) & 0x00ff0000u) >>  8) | \
-     ((((uint32_t) __u32) & 0x0000ff00u) <<  8) | \
-     ((((uint32_t) __u32) & 0x000000ffu) << 24))
+    (((((uint32_t) (__u32)) & 0xff000000u) >> 24) | \
+     ((((uint32_t) (__u32)) & 0x00ff0000u) >>  8) | \
+     ((((uint32_t) (__u32)) & 0x0000ff00u) <<  8) | \
+     ((((uint32_t) (__u32)) & 0x000000ffu) << 24))
 
 #define CORK_SWAP_UINT64(__u64) \
-    (((((uint64_t) __u64) & UINT64_C(0xff00000000000000)) >> 56) | \
-     ((((uint64_t) __u64) & UINT64_C(0x00ff000000000000)) >> 40) | \
-     ((((uint64_t) __u64) & UINT64_C(0x0000ff0000000000)) >> 24) | \
-     ((((uint64_t) __u64) & UINT64_C(0x000000ff00000000)) >>  8) | \
-     ((((uint64_t) __u64) & UINT64_C(0x00000000ff000000)) <<  8) | \
-     ((((uint64_t) __u64) & UINT64_C(0x0000000000ff0000)) << 24) | \
-     ((((uint64_t) __u64) & UINT64_C(0x000000000000ff00)) << 40) | \
-     ((((uint64_t) __u64) & UINT64_C(0x00000000000000ff)) << 56))
+    (((((uint64_t) (__u64)) & UINT64_C(0xff00000000000000)) >> 56) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x00ff000000000000)) >> 40) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x0000ff0000000000)) >> 24) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x000000ff00000000)) >>  8) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x00000000ff000000)) <<  8) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x0000000000ff0000)) << 24) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x000000000000ff00)) << 40) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x00000000000000ff)) << 56))
 
 /* Bytes-swaps an integer variable in place.
  *
-- 
2.43.0


From c43018b4552e2e7107b8a7a764bed4968fac8c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:35 +0000
Subject: [PATCH 52/53] fix: children keep no second descriptor for their
 standard streams

---
 src/libcork/posix/subprocess.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libcork/posix/subprocess.c b/src/libcork/posix/subprocess.c
index 9a60d27..1e6257b 100644
--- a/src/libcork/posix/subprocess.c
+++ b/src/libcork/posix/subprocess.c
@@ -155,6 +155,11 @@ cork_read_pipe_dup(struct cork_read_pipe *p, int fd)
 {
     if (p->fds[1] != -1) {
         rii_check_posix(dup2(p->fds[1], fd));
+        /* The stream must end as soon as the child closes fd, so there can't
+         * be a second descriptor for it. */
+        if (p->fds[1] != fd) {
+            return cork_read_pipe_close_write(p);
+        }
     }
     return 0;
 }
@@ -317,6 +322,9 @@ cork_write_pipe_dup(struct cork_write_pipe *p, int fd)
 {
     if (p->fds[0] != -1) {
         rii_check_posix(dup2(p->fds[0], fd));
+        if (p->fds[0] != fd) {
+            return cork_write_pipe_close_read(p);
+        }
     }
     return 0;
 }
-- 
2.43.0


From 7411cea6ef7720c68db6985228dd4835f797e254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:30 +0000
Subject: [PATCH 53/53] fix: shutting the collector down frees what a freed
 object's callback lets go of

---
 src/libcork/core/gc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libcork/core/gc.c b/src/libcork/core/gc.c
index 9831949..036671e 100644
--- a/src/libcork/core/gc.c
+++ b/src/libcork/core/gc.c
@@ -171,7 +171,11 @@ cork_gc_done(void)
     struct cork_gc  *gc = cork_gc_get();
     bool  was_busy = gc->busy;
     gc->busy = true;
-    cork_gc_collect_cycles(gc);
+    /* Freeing an object can release the last outside reference to another
+     * garbage cycle. */
+    do {
+        cork_gc_collect_cycles(gc);
+    } while (gc->roots != NULL);
     gc->busy = was_busy;
 }
 
-- 
2.43.0

