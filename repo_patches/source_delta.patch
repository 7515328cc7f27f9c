From f6c7ea7c603e3e097ab852f076a8dee6f643f020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:34 +0000
Subject: [PATCH 01/33] fix: roaring_bitmap_rank_many left ranks past the last
 container unset

---
 src/roaring.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index 2363afa..ee73d3c 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -2628,6 +2628,11 @@ void roaring_bitmap_rank_many(const roaring_bitmap_t *bm, const uint32_t *begin,
             iter++;
         }
     }
+    // values past the last container
+    while (iter != end) {
+        *(ans++) = size;
+        iter++;
+    }
 }
 
 /**
-- 
2.43.0


From cd84ce5c27d8e707729d5c656c949e0d1e15d378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:35 +0000
Subject: [PATCH 02/33] fix: paged export no longer rewrites the type codes of
 shared containers

---
 src/roaring_array.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index e3bc6ce..6e0c32e 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -447,9 +447,10 @@ bool ra_range_uint32_array(const roaring_array_t *ra, size_t offset,
     size_t cur_len = 0;
 
     for (int i = 0; i < ra->size; ++i) {
+        uint8_t typecode = ra->typecodes[i];
         const container_t *c =
-            container_unwrap_shared(ra->containers[i], &ra->typecodes[i]);
-        switch (ra->typecodes[i]) {
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE:
                 t_limit = (const_CAST_bitset(c))->cardinality;
                 break;
@@ -487,20 +488,20 @@ bool ra_range_uint32_array(const roaring_array_t *ra, size_t offset,
                 roaring_free(t_ans);
                 t_ans = append_ans;
             }
-            switch (ra->typecodes[i]) {
+            switch (typecode) {
                 case BITSET_CONTAINER_TYPE:
                     container_to_uint32_array(t_ans + dtr, const_CAST_bitset(c),
-                                              ra->typecodes[i],
+                                              typecode,
                                               ((uint32_t)ra->keys[i]) << 16);
                     break;
                 case ARRAY_CONTAINER_TYPE:
                     container_to_uint32_array(t_ans + dtr, const_CAST_array(c),
-                                              ra->typecodes[i],
+                                              typecode,
                                               ((uint32_t)ra->keys[i]) << 16);
                     break;
                 case RUN_CONTAINER_TYPE:
                     container_to_uint32_array(t_ans + dtr, const_CAST_run(c),
-                                              ra->typecodes[i],
+                                              typecode,
                                               ((uint32_t)ra->keys[i]) << 16);
                     break;
             }
-- 
2.43.0


From 3b94fd72692c09774c2c14615566b8a5e0ba2c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:35 +0000
Subject: [PATCH 03/33] fix: paged export releases its buffer through the
 memory hooks

---
 src/roaring_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index 6e0c32e..75aae65 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -512,7 +512,7 @@ bool ra_range_uint32_array(const roaring_array_t *ra, size_t offset,
     }
     if (t_ans != NULL) {
         memcpy(ans, t_ans + first_skip, limit * sizeof(uint32_t));
-        free(t_ans);
+        roaring_free(t_ans);
     }
     return true;
 }
-- 
2.43.0


From 36e7a8076816321c516596b2dbd56e6774a4b1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 04/33] fix: lazy in-place array unions passed overlapping
 buffers as __restrict__

---
 include/roaring/array_util.h | 6 +++---
 src/array_util.c             | 8 +++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/roaring/array_util.h b/include/roaring/array_util.h
index 8ac875a..8266c2e 100644
--- a/include/roaring/array_util.h
+++ b/include/roaring/array_util.h
@@ -231,9 +231,9 @@ size_t union_uint32(const uint32_t *set_1, size_t size_1, const uint32_t *set_2,
 /**
  * A fast SSE-based union function.
  */
-uint32_t union_vector16(const uint16_t *__restrict__ set_1, uint32_t size_1,
-                        const uint16_t *__restrict__ set_2, uint32_t size_2,
-                        uint16_t *__restrict__ buffer);
+uint32_t union_vector16(const uint16_t *set_1, uint32_t size_1,
+                        const uint16_t *set_2, uint32_t size_2,
+                        uint16_t *buffer);
 /**
  * A fast SSE-based XOR function.
  */
diff --git a/src/array_util.c b/src/array_util.c
index a4ff98d..48f8f71 100644
--- a/src/array_util.c
+++ b/src/array_util.c
@@ -1653,9 +1653,11 @@ static int uint16_compare(const void *a, const void *b) {
 CROARING_TARGET_AVX2
 // a one-pass SSE union algorithm
 // This function may not be safe if array1 == output or array2 == output.
-uint32_t union_vector16(const uint16_t *__restrict__ array1, uint32_t length1,
-                        const uint16_t *__restrict__ array2, uint32_t length2,
-                        uint16_t *__restrict__ output) {
+// Lazy in-place unions call it with an output overlapping one of the inputs, so
+// the pointers cannot be __restrict__.
+uint32_t union_vector16(const uint16_t *array1, uint32_t length1,
+                        const uint16_t *array2, uint32_t length2,
+                        uint16_t *output) {
     if ((length1 < 8) || (length2 < 8)) {
         return (uint32_t)union_uint16(array1, length1, array2, length2, output);
     }
-- 
2.43.0


From 0f634d588aac95d57e27dc46fabec34cb5907877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 05/33] fix: roaring_bitmap_remove_many did not unshare
 copy-on-write containers

container_remove() drops the reference of a shared container and the
caller then freed the same shared container once more.
---
 src/roaring.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index ee73d3c..1a38dff 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -673,6 +673,8 @@ void roaring_bitmap_remove_many(roaring_bitmap_t *r, size_t n_args,
             pos = ra_get_index(&r->high_low_container, key);
         }
         if (pos >= 0) {
+            ra_unshare_container_at_index(&r->high_low_container,
+                                          (uint16_t)pos);
             uint8_t new_typecode;
             container_t *new_container;
             new_container = container_remove(
-- 
2.43.0


From 6243eb8d127e9a7add9f41dce2daa1103674996b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 06/33] fix: frozen serialisation of bitmaps with shared
 containers

The size and the image were computed from the wrapper's typecode, which
falls into the unreachable default of both switches.
---
 src/roaring.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/roaring.c b/src/roaring.c
index 1a38dff..831ae6d 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -2952,19 +2952,21 @@ size_t roaring_bitmap_frozen_size_in_bytes(const roaring_bitmap_t *rb) {
     const roaring_array_t *ra = &rb->high_low_container;
     size_t num_bytes = 0;
     for (int32_t i = 0; i < ra->size; i++) {
-        switch (ra->typecodes[i]) {
+        uint8_t typecode = ra->typecodes[i];
+        const container_t *c =
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE: {
                 num_bytes += BITSET_CONTAINER_SIZE_IN_WORDS * sizeof(uint64_t);
                 break;
             }
             case RUN_CONTAINER_TYPE: {
-                const run_container_t *rc = const_CAST_run(ra->containers[i]);
+                const run_container_t *rc = const_CAST_run(c);
                 num_bytes += rc->n_runs * sizeof(rle16_t);
                 break;
             }
             case ARRAY_CONTAINER_TYPE: {
-                const array_container_t *ac =
-                    const_CAST_array(ra->containers[i]);
+                const array_container_t *ac = const_CAST_array(c);
                 num_bytes += ac->cardinality * sizeof(uint16_t);
                 break;
             }
@@ -2995,20 +2997,22 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
     size_t run_zone_size = 0;
     size_t array_zone_size = 0;
     for (int32_t i = 0; i < ra->size; i++) {
-        switch (ra->typecodes[i]) {
+        uint8_t typecode = ra->typecodes[i];
+        const container_t *c =
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE: {
                 bitset_zone_size +=
                     BITSET_CONTAINER_SIZE_IN_WORDS * sizeof(uint64_t);
                 break;
             }
             case RUN_CONTAINER_TYPE: {
-                const run_container_t *rc = const_CAST_run(ra->containers[i]);
+                const run_container_t *rc = const_CAST_run(c);
                 run_zone_size += rc->n_runs * sizeof(rle16_t);
                 break;
             }
             case ARRAY_CONTAINER_TYPE: {
-                const array_container_t *ac =
-                    const_CAST_array(ra->containers[i]);
+                const array_container_t *ac = const_CAST_array(c);
                 array_zone_size += ac->cardinality * sizeof(uint16_t);
                 break;
             }
@@ -3027,10 +3031,12 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
 
     for (int32_t i = 0; i < ra->size; i++) {
         uint16_t count;
-        switch (ra->typecodes[i]) {
+        uint8_t typecode = ra->typecodes[i];
+        const container_t *c =
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE: {
-                const bitset_container_t *bc =
-                    const_CAST_bitset(ra->containers[i]);
+                const bitset_container_t *bc = const_CAST_bitset(c);
                 memcpy(bitset_zone, bc->words,
                        BITSET_CONTAINER_SIZE_IN_WORDS * sizeof(uint64_t));
                 bitset_zone += BITSET_CONTAINER_SIZE_IN_WORDS;
@@ -3044,7 +3050,7 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
                 break;
             }
             case RUN_CONTAINER_TYPE: {
-                const run_container_t *rc = const_CAST_run(ra->containers[i]);
+                const run_container_t *rc = const_CAST_run(c);
                 size_t num_bytes = rc->n_runs * sizeof(rle16_t);
                 memcpy(run_zone, rc->runs, num_bytes);
                 run_zone += rc->n_runs;
@@ -3052,8 +3058,7 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
                 break;
             }
             case ARRAY_CONTAINER_TYPE: {
-                const array_container_t *ac =
-                    const_CAST_array(ra->containers[i]);
+                const array_container_t *ac = const_CAST_array(c);
                 size_t num_bytes = ac->cardinality * sizeof(uint16_t);
                 memcpy(array_zone, ac->array, num_bytes);
                 array_zone += ac->cardinality;
@@ -3064,9 +3069,9 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
                 roaring_unreachable;
         }
         memcpy(&count_zone[i], &count, 2);
+        typecode_zone[i] = typecode;
     }
     memcpy(key_zone, ra->keys, ra->size * sizeof(uint16_t));
-    memcpy(typecode_zone, ra->typecodes, ra->size * sizeof(uint8_t));
     uint32_t header = ((uint32_t)ra->size << 15) | FROZEN_COOKIE;
     memcpy(header_zone, &header, 4);
 }
-- 
2.43.0


From dfeddbdaf44c78f007fe709886a3a6f775b64b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:52 +0000
Subject: [PATCH 07/33] fix: copy a shared container before releasing the
 reference to it

Another thread could release the last reference, or take the container over
and modify it in place, while the container was still being cloned.
---
 src/containers/containers.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/containers/containers.c b/src/containers/containers.c
index eb5a346..ce79bfb 100644
--- a/src/containers/containers.c
+++ b/src/containers/containers.c
@@ -229,12 +229,19 @@ container_t *shared_container_extract_copy(shared_container_t *sc,
     assert(sc->typecode != SHARED_CONTAINER_TYPE);
     *typecode = sc->typecode;
     container_t *answer;
-    if (croaring_refcount_dec(&sc->counter)) {
+    if (croaring_refcount_get(&sc->counter) == 1) {
+        // We hold the last reference, nobody else can form a new one. The
+        // decrement orders the accesses made through the references that
+        // are already gone before ours.
+        croaring_refcount_dec(&sc->counter);
         answer = sc->container;
         sc->container = NULL;  // paranoid
         roaring_free(sc);
     } else {
+        // The contents must be copied before our reference is released: after
+        // that, another thread may release the last one or modify in place.
         answer = container_clone(sc->container, *typecode);
+        shared_container_free(sc);
     }
     assert(*typecode != SHARED_CONTAINER_TYPE);
     return answer;
-- 
2.43.0


From 11ee67971d9071d4a5f098877ca3555a09b5f545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 08/33] fix: reference counts never reached zero in builds
 without atomics

croaring_refcount_dec() compared the pointer, not the counter.
---
 include/roaring/portability.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/roaring/portability.h b/include/roaring/portability.h
index 03e741b..2d5da3b 100644
--- a/include/roaring/portability.h
+++ b/include/roaring/portability.h
@@ -559,7 +559,7 @@ static inline void croaring_refcount_inc(croaring_refcount_t *val) {
 static inline bool croaring_refcount_dec(croaring_refcount_t *val) {
     assert(*val > 0);
     *val -= 1;
-    return val == 0;
+    return *val == 0;
 }
 
 static inline uint32_t croaring_refcount_get(const croaring_refcount_t *val) {
-- 
2.43.0


From b52c23264576dfd59ee2a055dcd19c8efbd20485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 09/33] fix: roaring_bitmap_add_bulk wrote through a shared
 container

The context's container was modified in place even after a copy-on-write copy
had shared it, or when roaring_bitmap_contains_bulk had left a shared
container in the context.
---
 src/roaring.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/roaring.c b/src/roaring.c
index 831ae6d..261baf0 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -103,7 +103,12 @@ static inline void add_bulk_impl(roaring_bitmap_t *r,
                                  roaring_bulk_context_t *context,
                                  uint32_t val) {
     uint16_t key = val >> 16;
-    if (context->container == NULL || context->key != key) {
+    // The container at hand may be modified in place only if it is still the
+    // bitmap's own: a copy-on-write copy may have shared it meanwhile, and
+    // roaring_bitmap_contains_bulk() may have left a shared container here.
+    if (context->container == NULL || context->key != key ||
+        context->typecode == SHARED_CONTAINER_TYPE ||
+        r->high_low_container.containers[context->idx] != context->container) {
         uint8_t typecode;
         int idx;
         context->container =
-- 
2.43.0


From 54b6741094e45dfaf9983dbc3604f56fe0226df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 10/33] fix: roaring_bitmap_from_range wrapped around at 2^32

With a step of 65536 or more and an upper bound near 2^32 the 32-bit loop
variable overflowed: values below the range were added, or the call never
returned.
---
 src/roaring.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/roaring.c b/src/roaring.c
index 261baf0..e5e11c2 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -229,8 +229,8 @@ roaring_bitmap_t *roaring_bitmap_from_range(uint64_t min, uint64_t max,
     if (max <= min) return NULL;
     roaring_bitmap_t *answer = roaring_bitmap_create();
     if (step >= (1 << 16)) {
-        for (uint32_t value = (uint32_t)min; value < max; value += step) {
-            roaring_bitmap_add(answer, value);
+        for (uint64_t value = min; value < max; value += step) {
+            roaring_bitmap_add(answer, (uint32_t)value);
         }
         return answer;
     }
-- 
2.43.0


From 9b4117f31bf64a703b6ca9df5c423b6bdbcb9865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:07 +0000
Subject: [PATCH 11/33] fix: copying or overwriting a bitmap when memory is
 refused

A failed overwrite left the destination counting containers it had already
freed, and a failed copy-on-write copy put a NULL container in both bitmaps.
---
 src/roaring_array.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index 75aae65..09c386e 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -126,8 +126,8 @@ void ra_init(roaring_array_t *new_ra) {
 bool ra_overwrite(const roaring_array_t *source, roaring_array_t *dest,
                   bool copy_on_write) {
     ra_clear_containers(dest);  // we are going to overwrite them
+    dest->size = 0;             // <--- This is important, also if we fail.
     if (source->size == 0) {    // Note: can't call memcpy(NULL), even w/size
-        dest->size = 0;         // <--- This is important.
         return true;            // output was just cleared, so they match
     }
     if (dest->allocation_size < source->size) {
@@ -135,20 +135,25 @@ bool ra_overwrite(const roaring_array_t *source, roaring_array_t *dest,
             return false;
         }
     }
-    dest->size = source->size;
-    memcpy(dest->keys, source->keys, dest->size * sizeof(uint16_t));
+    memcpy(dest->keys, source->keys, source->size * sizeof(uint16_t));
     // we go through the containers, turning them into shared containers...
     if (copy_on_write) {
-        for (int32_t i = 0; i < dest->size; ++i) {
-            source->containers[i] = get_copy_of_container(
+        for (int32_t i = 0; i < source->size; ++i) {
+            container_t *shared = get_copy_of_container(
                 source->containers[i], &source->typecodes[i], copy_on_write);
+            if (shared == NULL) {  // memory allocation failure
+                ra_clear_containers(dest);
+                dest->size = 0;
+                return false;
+            }
+            source->containers[i] = shared;
+            // we do a shallow copy to the other bitmap
+            dest->containers[i] = shared;
+            dest->typecodes[i] = source->typecodes[i];
+            dest->size = i + 1;
         }
-        // we do a shallow copy to the other bitmap
-        memcpy(dest->containers, source->containers,
-               dest->size * sizeof(container_t *));
-        memcpy(dest->typecodes, source->typecodes,
-               dest->size * sizeof(uint8_t));
     } else {
+        dest->size = source->size;
         memcpy(dest->typecodes, source->typecodes,
                dest->size * sizeof(uint8_t));
         for (int32_t i = 0; i < dest->size; i++) {
-- 
2.43.0


From 66613001aac72e1e1d6c94ccd0efcecfe0fe9ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 12/33] fix: reading a run container crashed when its runs
 could not be allocated

---
 src/roaring_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index 09c386e..09c9aef 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -848,7 +848,7 @@ bool ra_portable_deserialize(roaring_array_t *answer, const char *buf,
             }
             // it is now safe to read
 
-            run_container_t *c = run_container_create();
+            run_container_t *c = run_container_create_given_capacity(n_runs);
             if (c == NULL) {  // memory allocation failure
                 // Failed to allocate memory for a run container.
                 ra_clear(answer);  // we need to clear the containers already
-- 
2.43.0


From fb802e2e1cc0a96d4c9967b0f63279b94286ccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 13/33] fix: creating or copying an iterator crashed when
 memory is refused

---
 src/roaring.c   | 1 +
 src/roaring64.c | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index e5e11c2..aa09431 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -1759,6 +1759,7 @@ roaring_uint32_iterator_t *roaring_uint32_iterator_copy(
     roaring_uint32_iterator_t *newit =
         (roaring_uint32_iterator_t *)roaring_malloc(
             sizeof(roaring_uint32_iterator_t));
+    if (newit == NULL) return NULL;
     memcpy(newit, it, sizeof(roaring_uint32_iterator_t));
     return newit;
 }
diff --git a/src/roaring64.c b/src/roaring64.c
index de1009e..a23fda0 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -2552,6 +2552,7 @@ void roaring64_bitmap_to_uint64_array(const roaring64_bitmap_t *r,
 roaring64_iterator_t *roaring64_iterator_create(const roaring64_bitmap_t *r) {
     roaring64_iterator_t *it =
         (roaring64_iterator_t *)roaring_malloc(sizeof(roaring64_iterator_t));
+    if (it == NULL) return NULL;
     return roaring64_iterator_init_at(r, it, /*first=*/true);
 }
 
@@ -2559,6 +2560,7 @@ roaring64_iterator_t *roaring64_iterator_create_last(
     const roaring64_bitmap_t *r) {
     roaring64_iterator_t *it =
         (roaring64_iterator_t *)roaring_malloc(sizeof(roaring64_iterator_t));
+    if (it == NULL) return NULL;
     return roaring64_iterator_init_at(r, it, /*first=*/false);
 }
 
@@ -2575,6 +2577,7 @@ void roaring64_iterator_reinit_last(const roaring64_bitmap_t *r,
 roaring64_iterator_t *roaring64_iterator_copy(const roaring64_iterator_t *it) {
     roaring64_iterator_t *new_it =
         (roaring64_iterator_t *)roaring_malloc(sizeof(roaring64_iterator_t));
+    if (new_it == NULL) return NULL;
     memcpy(new_it, it, sizeof(*it));
     return new_it;
 }
-- 
2.43.0


From 90d983441520ecca7adc60fb45d44aab808ef180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:06 +0000
Subject: [PATCH 14/33] fix: roaring64_bitmap_remove_bulk kept a removed leaf
 in the context

Removing the last value of a container erases its leaf from the ART, but
the bulk context went on pointing at it, so the next bulk call (or the
rest of roaring64_bitmap_remove_many) on the same high bits dereferenced a
freed container. Forget the leaf when it is erased.
---
 src/roaring64.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/roaring64.c b/src/roaring64.c
index a23fda0..4c718e0 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -755,12 +755,17 @@ void roaring64_bitmap_remove_bulk(roaring64_bitmap_t *r,
             bool erased = art_erase(art, high48, (art_val_t *)&leaf);
             assert(erased);
             remove_container(r, leaf);
+            // The leaf is gone: the context may no longer refer to it.
+            context->leaf = NULL;
         }
     } else {
         // We're not positioned anywhere yet or the high bits of the key
         // differ.
         leaf_t *leaf = (leaf_t *)art_find(art, high48);
-        containerptr_roaring64_bitmap_remove(r, high48, low16, leaf);
+        if (containerptr_roaring64_bitmap_remove(r, high48, low16, leaf)) {
+            // The leaf is gone: the context may not refer to it.
+            leaf = NULL;
+        }
         context->leaf = leaf;
         memcpy(context->high_bytes, high48, ART_KEY_BYTES);
     }
-- 
2.43.0


From 9817e66a87a853139d69fb8f64a249f1a0eff8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:06 +0000
Subject: [PATCH 15/33] fix: roaring64_bitmap_contains_range missed absent
 trailing containers

When the containers at the end of the range were absent but a later one was
present, the loop returned true as soon as it passed the end of the range.
Fall through to the check that the last container was seen.
---
 src/roaring64.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/roaring64.c b/src/roaring64.c
index 4c718e0..e10242e 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -540,9 +540,9 @@ bool roaring64_bitmap_contains_range(const roaring64_bitmap_t *r, uint64_t min,
     while (it.value != NULL) {
         uint64_t current_high48_bits = combine_key(it.key, 0);
         if (current_high48_bits > max_high48_bits) {
-            // We've passed the end of the range with all containers containing
-            // the range.
-            return true;
+            // We've passed the end of the range; whether its last container
+            // was present is checked below.
+            break;
         }
         if (current_high48_bits - prev_high48_bits > 0x10000) {
             // There is a gap in the iterator that falls in the range.
-- 
2.43.0


From 29e202c7c74784abed355481e09f8dcae23bd960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:06 +0000
Subject: [PATCH 16/33] fix: moving a 32-bit bitmap into a 64-bit one stole
 shared containers

roaring64_bitmap_t knows no copy-on-write containers: a shared container
moved into one made later operations hit unreachable code, or write to
values still used by the other copies. Unshare each container first.
---
 src/roaring64.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/roaring64.c b/src/roaring64.c
index e10242e..99616c2 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -287,6 +287,8 @@ static void move_from_roaring32_offset(roaring64_bitmap_t *dst,
     uint32_t r32_size = ra_get_size(&src->high_low_container);
     for (uint32_t i = 0; i < r32_size; ++i) {
         uint16_t key = ra_get_key_at_index(&src->high_low_container, i);
+        // A container shared with a copy-on-write copy is not ours to steal.
+        ra_unshare_container_at_index(&src->high_low_container, (uint16_t)i);
         uint8_t typecode;
         container_t *container = ra_get_container_at_index(
             &src->high_low_container, (uint16_t)i, &typecode);
-- 
2.43.0


From 50204010fd97dfb789b94104d39e2cf873d12e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 17/33] fix: roaring64_iterator_read left the saturation side
 unset at the end

Reading to the end did not record that the iterator ran off the forward
end, so a following roaring64_iterator_previous depended on an
uninitialised flag and could report that there is no previous value.
---
 src/roaring64.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/roaring64.c b/src/roaring64.c
index 99616c2..2076a14 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -2709,6 +2709,8 @@ uint64_t roaring64_iterator_read(roaring64_iterator_t *it, uint64_t *buf,
         it->has_value = art_iterator_next(&it->art_it);
         if (it->has_value) {
             roaring64_iterator_init_at_leaf_first(it);
+        } else {
+            it->saturated_forward = true;
         }
     }
     return consumed;
-- 
2.43.0


From 06a395cb377d788af7da6c780db67cb6e3969a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:01 +0000
Subject: [PATCH 18/33] fix: roaring64_bitmap_frozen_view read past, or freed
 garbage on, a truncated buffer

The padding in front of the ART was not deducted from the remaining length,
so a buffer cut short could be accepted and read past its end. Failures
after the container array was allocated iterated a half-read ART and freed
uninitialised container pointers. Check every length before the ART becomes
part of the bitmap and before the containers are allocated.
---
 src/roaring64.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/roaring64.c b/src/roaring64.c
index 2076a14..3d37503 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -2452,11 +2452,8 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
     buf += sizeof(r->capacity);
     maxbytes -= sizeof(r->capacity);
 
-    r->containers =
-        (container_t *)roaring_malloc(r->capacity * sizeof(container_t *));
-
     // Container element counts.
-    if (maxbytes < r->capacity * sizeof(uint16_t)) {
+    if (maxbytes / sizeof(uint16_t) < r->capacity) {
         roaring64_bitmap_free(r);
         return NULL;
     }
@@ -2481,8 +2478,17 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
     maxbytes -= sizeof(uint64_t);
 
     // ART (8 byte aligned).
+    const char *before_art = buf;
     buf = CROARING_ALIGN_BUF(buf, 8);
-    size_t art_size = art_frozen_view(buf, maxbytes, &r->art);
+    if (maxbytes < (size_t)(buf - before_art)) {
+        roaring64_bitmap_free(r);
+        return NULL;
+    }
+    maxbytes -= buf - before_art;
+    // The ART only becomes part of `r` once the containers it refers to are
+    // known to be there.
+    art_t art;
+    size_t art_size = art_frozen_view(buf, maxbytes, &art);
     if (art_size == 0) {
         roaring64_bitmap_free(r);
         return NULL;
@@ -2507,6 +2513,10 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
     }
     maxbytes -= buf - before_containers;
 
+    r->art = art;
+    r->containers =
+        (container_t **)roaring_malloc(r->capacity * sizeof(container_t *));
+
     // Deserialize in ART iteration order.
     art_iterator_t it = art_init_iterator(&r->art, /*first=*/true);
     for (size_t i = 0; it.value != NULL; ++i) {
-- 
2.43.0


From 9924d87a7df069296b05b2c507148bd04a999846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:03 +0000
Subject: [PATCH 19/33] fix: set operations crashed when the result bitmap
 could not be allocated

These functions are documented to return NULL on error, but used the result
of roaring_bitmap_create* without looking at it.
---
 src/roaring.c                | 42 ++++++++++++++++++++++++++++++++++++
 src/roaring_priority_queue.c |  6 ++++++
 2 files changed, 48 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index aa09431..39debd6 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -197,6 +197,9 @@ bool roaring_bitmap_contains_bulk(const roaring_bitmap_t *r,
 
 roaring_bitmap_t *roaring_bitmap_of_ptr(size_t n_args, const uint32_t *vals) {
     roaring_bitmap_t *answer = roaring_bitmap_create();
+    if (answer == NULL) {
+        return NULL;
+    }
     roaring_bitmap_add_many(answer, n_args, vals);
     return answer;
 }
@@ -205,6 +208,9 @@ roaring_bitmap_t *roaring_bitmap_of(size_t n_args, ...) {
     // todo: could be greatly optimized but we do not expect this call to ever
     // include long lists
     roaring_bitmap_t *answer = roaring_bitmap_create();
+    if (answer == NULL) {
+        return NULL;
+    }
     roaring_bulk_context_t context = CROARING_ZERO_INITIALIZER;
     va_list ap;
     va_start(ap, n_args);
@@ -228,6 +234,9 @@ roaring_bitmap_t *roaring_bitmap_from_range(uint64_t min, uint64_t max,
     if (step == 0) return NULL;
     if (max <= min) return NULL;
     roaring_bitmap_t *answer = roaring_bitmap_create();
+    if (answer == NULL) {
+        return NULL;
+    }
     if (step >= (1 << 16)) {
         for (uint64_t value = min; value < max; value += step) {
             roaring_bitmap_add(answer, (uint32_t)value);
@@ -709,6 +718,9 @@ roaring_bitmap_t *roaring_bitmap_and(const roaring_bitmap_t *x1,
               length2 = x2->high_low_container.size;
     uint32_t neededcap = length1 > length2 ? length2 : length1;
     roaring_bitmap_t *answer = roaring_bitmap_create_with_capacity(neededcap);
+    if (answer == NULL) {
+        return NULL;
+    }
     roaring_bitmap_set_copy_on_write(answer, is_cow(x1) || is_cow(x2));
 
     int pos1 = 0, pos2 = 0;
@@ -756,6 +768,9 @@ roaring_bitmap_t *roaring_bitmap_or_many(size_t number,
     }
     roaring_bitmap_t *answer =
         roaring_bitmap_lazy_or(x[0], x[1], LAZY_OR_BITSET_CONVERSION);
+    if (answer == NULL) {
+        return NULL;
+    }
     for (size_t i = 2; i < number; i++) {
         roaring_bitmap_lazy_or_inplace(answer, x[i], LAZY_OR_BITSET_CONVERSION);
     }
@@ -775,6 +790,9 @@ roaring_bitmap_t *roaring_bitmap_xor_many(size_t number,
         return roaring_bitmap_copy(x[0]);
     }
     roaring_bitmap_t *answer = roaring_bitmap_lazy_xor(x[0], x[1]);
+    if (answer == NULL) {
+        return NULL;
+    }
     for (size_t i = 2; i < number; i++) {
         roaring_bitmap_lazy_xor_inplace(answer, x[i]);
     }
@@ -861,6 +879,9 @@ roaring_bitmap_t *roaring_bitmap_or(const roaring_bitmap_t *x1,
     }
     roaring_bitmap_t *answer =
         roaring_bitmap_create_with_capacity(length1 + length2);
+    if (answer == NULL) {
+        return NULL;
+    }
     roaring_bitmap_set_copy_on_write(answer, is_cow(x1) || is_cow(x2));
     int pos1 = 0, pos2 = 0;
     uint8_t type1, type2;
@@ -1012,6 +1033,9 @@ roaring_bitmap_t *roaring_bitmap_xor(const roaring_bitmap_t *x1,
     }
     roaring_bitmap_t *answer =
         roaring_bitmap_create_with_capacity(length1 + length2);
+    if (answer == NULL) {
+        return NULL;
+    }
     roaring_bitmap_set_copy_on_write(answer, is_cow(x1) || is_cow(x2));
     int pos1 = 0, pos2 = 0;
     uint8_t type1, type2;
@@ -1172,6 +1196,9 @@ roaring_bitmap_t *roaring_bitmap_andnot(const roaring_bitmap_t *x1,
               length2 = x2->high_low_container.size;
     if (0 == length1) {
         roaring_bitmap_t *empty_bitmap = roaring_bitmap_create();
+        if (empty_bitmap == NULL) {
+            return NULL;
+        }
         roaring_bitmap_set_copy_on_write(empty_bitmap,
                                          is_cow(x1) || is_cow(x2));
         return empty_bitmap;
@@ -1180,6 +1207,9 @@ roaring_bitmap_t *roaring_bitmap_andnot(const roaring_bitmap_t *x1,
         return roaring_bitmap_copy(x1);
     }
     roaring_bitmap_t *answer = roaring_bitmap_create_with_capacity(length1);
+    if (answer == NULL) {
+        return NULL;
+    }
     roaring_bitmap_set_copy_on_write(answer, is_cow(x1) || is_cow(x2));
 
     int pos1 = 0, pos2 = 0;
@@ -2036,6 +2066,9 @@ roaring_bitmap_t *roaring_bitmap_flip_closed(const roaring_bitmap_t *x1,
     }
 
     roaring_bitmap_t *ans = roaring_bitmap_create();
+    if (ans == NULL) {
+        return NULL;
+    }
     roaring_bitmap_set_copy_on_write(ans, is_cow(x1));
 
     uint16_t hb_start = (uint16_t)(range_start >> 16);
@@ -2178,6 +2211,9 @@ roaring_bitmap_t *roaring_bitmap_add_offset(const roaring_bitmap_t *bm,
     in_offset = (uint16_t)(offset - container_offset * (1 << 16));
 
     answer = roaring_bitmap_create();
+    if (answer == NULL) {
+        return NULL;
+    }
     bool cow = is_cow(bm);
     roaring_bitmap_set_copy_on_write(answer, cow);
 
@@ -2252,6 +2288,9 @@ roaring_bitmap_t *roaring_bitmap_lazy_or(const roaring_bitmap_t *x1,
     }
     roaring_bitmap_t *answer =
         roaring_bitmap_create_with_capacity(length1 + length2);
+    if (answer == NULL) {
+        return NULL;
+    }
     roaring_bitmap_set_copy_on_write(answer, is_cow(x1) || is_cow(x2));
     int pos1 = 0, pos2 = 0;
     uint8_t type1, type2;
@@ -2426,6 +2465,9 @@ roaring_bitmap_t *roaring_bitmap_lazy_xor(const roaring_bitmap_t *x1,
     }
     roaring_bitmap_t *answer =
         roaring_bitmap_create_with_capacity(length1 + length2);
+    if (answer == NULL) {
+        return NULL;
+    }
     roaring_bitmap_set_copy_on_write(answer, is_cow(x1) || is_cow(x2));
     int pos1 = 0, pos2 = 0;
     uint8_t type1, type2;
diff --git a/src/roaring_priority_queue.c b/src/roaring_priority_queue.c
index d53df8e..39c4cfa 100644
--- a/src/roaring_priority_queue.c
+++ b/src/roaring_priority_queue.c
@@ -70,6 +70,9 @@ static roaring_pq_t *create_pq(const roaring_bitmap_t **arr, uint32_t length) {
     size_t alloc_size =
         sizeof(roaring_pq_t) + sizeof(roaring_pq_element_t) * length;
     roaring_pq_t *answer = (roaring_pq_t *)roaring_malloc(alloc_size);
+    if (answer == NULL) {
+        return NULL;
+    }
     answer->elements = (roaring_pq_element_t *)(answer + 1);
     answer->size = length;
     for (uint32_t i = 0; i < length; i++) {
@@ -206,6 +209,9 @@ roaring_bitmap_t *roaring_bitmap_or_many_heap(uint32_t number,
         return roaring_bitmap_copy(x[0]);
     }
     roaring_pq_t *pq = create_pq(x, number);
+    if (pq == NULL) {
+        return NULL;
+    }
     while (pq->size > 1) {
         roaring_pq_element_t x1 = pq_poll(pq);
         roaring_pq_element_t x2 = pq_poll(pq);
-- 
2.43.0


From 6d9f1dbbf272600454f08ab13dc1501562846582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:03 +0000
Subject: [PATCH 20/33] fix: 64-bit bitmaps crashed when the bitmap struct
 could not be allocated

roaring64_bitmap_create() wrote through the result of a failed malloc, and
no caller looked at its result; all of them are documented to return NULL
in case of errors.
---
 src/roaring64.c | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/roaring64.c b/src/roaring64.c
index 3d37503..a2c5258 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -225,6 +225,9 @@ static inline roaring64_iterator_t *roaring64_iterator_init_at(
 roaring64_bitmap_t *roaring64_bitmap_create(void) {
     roaring64_bitmap_t *r =
         (roaring64_bitmap_t *)roaring_malloc(sizeof(roaring64_bitmap_t));
+    if (r == NULL) {
+        return NULL;
+    }
     art_init_cleared(&r->art);
     r->flags = 0;
     r->capacity = 0;
@@ -258,6 +261,9 @@ void roaring64_bitmap_free(roaring64_bitmap_t *r) {
 
 roaring64_bitmap_t *roaring64_bitmap_copy(const roaring64_bitmap_t *r) {
     roaring64_bitmap_t *result = roaring64_bitmap_create();
+    if (result == NULL) {
+        return NULL;
+    }
 
     art_iterator_t it = art_init_iterator((art_t *)&r->art, /*first=*/true);
     while (it.value != NULL) {
@@ -306,6 +312,9 @@ static void move_from_roaring32_offset(roaring64_bitmap_t *dst,
 roaring64_bitmap_t *roaring64_bitmap_move_from_roaring32(
     roaring_bitmap_t *bitmap32) {
     roaring64_bitmap_t *result = roaring64_bitmap_create();
+    if (result == NULL) {
+        return NULL;
+    }
 
     move_from_roaring32_offset(result, bitmap32, 0);
 
@@ -318,6 +327,9 @@ roaring64_bitmap_t *roaring64_bitmap_from_range(uint64_t min, uint64_t max,
         return NULL;
     }
     roaring64_bitmap_t *r = roaring64_bitmap_create();
+    if (r == NULL) {
+        return NULL;
+    }
     if (step >= (1 << 16)) {
         // Only one value per container.
         for (uint64_t value = min; value < max; value += step) {
@@ -355,6 +367,9 @@ roaring64_bitmap_t *roaring64_bitmap_from_range(uint64_t min, uint64_t max,
 roaring64_bitmap_t *roaring64_bitmap_of_ptr(size_t n_args,
                                             const uint64_t *vals) {
     roaring64_bitmap_t *r = roaring64_bitmap_create();
+    if (r == NULL) {
+        return NULL;
+    }
     roaring64_bitmap_add_many(r, n_args, vals);
     return r;
 }
@@ -1121,6 +1136,9 @@ bool roaring64_bitmap_is_strict_subset(const roaring64_bitmap_t *r1,
 roaring64_bitmap_t *roaring64_bitmap_and(const roaring64_bitmap_t *r1,
                                          const roaring64_bitmap_t *r2) {
     roaring64_bitmap_t *result = roaring64_bitmap_create();
+    if (result == NULL) {
+        return NULL;
+    }
 
     art_iterator_t it1 = art_init_iterator((art_t *)&r1->art, /*first=*/true);
     art_iterator_t it2 = art_init_iterator((art_t *)&r2->art, /*first=*/true);
@@ -1329,6 +1347,9 @@ double roaring64_bitmap_jaccard_index(const roaring64_bitmap_t *r1,
 roaring64_bitmap_t *roaring64_bitmap_or(const roaring64_bitmap_t *r1,
                                         const roaring64_bitmap_t *r2) {
     roaring64_bitmap_t *result = roaring64_bitmap_create();
+    if (result == NULL) {
+        return NULL;
+    }
 
     art_iterator_t it1 = art_init_iterator((art_t *)&r1->art, /*first=*/true);
     art_iterator_t it2 = art_init_iterator((art_t *)&r2->art, /*first=*/true);
@@ -1451,6 +1472,9 @@ void roaring64_bitmap_or_inplace(roaring64_bitmap_t *r1,
 roaring64_bitmap_t *roaring64_bitmap_xor(const roaring64_bitmap_t *r1,
                                          const roaring64_bitmap_t *r2) {
     roaring64_bitmap_t *result = roaring64_bitmap_create();
+    if (result == NULL) {
+        return NULL;
+    }
 
     art_iterator_t it1 = art_init_iterator((art_t *)&r1->art, /*first=*/true);
     art_iterator_t it2 = art_init_iterator((art_t *)&r2->art, /*first=*/true);
@@ -1596,6 +1620,9 @@ void roaring64_bitmap_xor_inplace(roaring64_bitmap_t *r1,
 roaring64_bitmap_t *roaring64_bitmap_andnot(const roaring64_bitmap_t *r1,
                                             const roaring64_bitmap_t *r2) {
     roaring64_bitmap_t *result = roaring64_bitmap_create();
+    if (result == NULL) {
+        return NULL;
+    }
 
     art_iterator_t it1 = art_init_iterator((art_t *)&r1->art, /*first=*/true);
     art_iterator_t it2 = art_init_iterator((art_t *)&r2->art, /*first=*/true);
@@ -1810,6 +1837,9 @@ roaring64_bitmap_t *roaring64_bitmap_flip_closed(const roaring64_bitmap_t *r1,
     uint64_t max_high48_bits = (max & 0xFFFFFFFFFFFF0000ULL) >> 16;
 
     roaring64_bitmap_t *r2 = roaring64_bitmap_create();
+    if (r2 == NULL) {
+        return NULL;
+    }
     art_iterator_t it = art_init_iterator((art_t *)&r1->art, /*first=*/true);
 
     // Copy the containers before min unchanged.
@@ -2119,6 +2149,9 @@ roaring64_bitmap_t *roaring64_bitmap_portable_deserialize_safe(
     }
 
     roaring64_bitmap_t *r = roaring64_bitmap_create();
+    if (r == NULL) {
+        return NULL;
+    }
     // Iterate through buckets ordered by increasing keys.
     int64_t previous_high32 = -1;
     for (uint64_t bucket = 0; bucket < buckets; ++bucket) {
@@ -2432,6 +2465,9 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
     }
 
     roaring64_bitmap_t *r = roaring64_bitmap_create();
+    if (r == NULL) {
+        return NULL;
+    }
 
     // Flags.
     if (maxbytes < sizeof(r->flags)) {
-- 
2.43.0


From f09c3b5f41f3f86337a12c1d3a40cf0832f00bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:53 +0000
Subject: [PATCH 21/33] fix: roaring64_bitmap_frozen_view crashed when an
 allocation failed

It is documented to return NULL if deserialization fails.
---
 src/roaring64.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/roaring64.c b/src/roaring64.c
index a2c5258..ec4dc66 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -2424,6 +2424,9 @@ static container_t *container_frozen_view(uint8_t typecode, uint32_t elem_count,
         case BITSET_CONTAINER_TYPE: {
             bitset_container_t *c = (bitset_container_t *)roaring_malloc(
                 sizeof(bitset_container_t));
+            if (c == NULL) {
+                return NULL;
+            }
             c->cardinality = elem_count;
             c->words = (uint64_t *)*bitsets;
             *bitsets += BITSET_CONTAINER_SIZE_IN_WORDS;
@@ -2432,6 +2435,9 @@ static container_t *container_frozen_view(uint8_t typecode, uint32_t elem_count,
         case ARRAY_CONTAINER_TYPE: {
             array_container_t *c =
                 (array_container_t *)roaring_malloc(sizeof(array_container_t));
+            if (c == NULL) {
+                return NULL;
+            }
             c->cardinality = elem_count;
             c->capacity = elem_count;
             c->array = (uint16_t *)*arrays;
@@ -2441,6 +2447,9 @@ static container_t *container_frozen_view(uint8_t typecode, uint32_t elem_count,
         case RUN_CONTAINER_TYPE: {
             run_container_t *c =
                 (run_container_t *)roaring_malloc(sizeof(run_container_t));
+            if (c == NULL) {
+                return NULL;
+            }
             c->n_runs = elem_count;
             c->capacity = elem_count;
             c->runs = (rle16_t *)*runs;
@@ -2549,9 +2558,13 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
     }
     maxbytes -= buf - before_containers;
 
-    r->art = art;
     r->containers =
-        (container_t **)roaring_malloc(r->capacity * sizeof(container_t *));
+        (container_t **)roaring_calloc(r->capacity, sizeof(container_t *));
+    if (r->containers == NULL && r->capacity > 0) {
+        roaring64_bitmap_free(r);
+        return NULL;
+    }
+    r->art = art;
 
     // Deserialize in ART iteration order.
     art_iterator_t it = art_init_iterator(&r->art, /*first=*/true);
@@ -2568,6 +2581,10 @@ roaring64_bitmap_t *roaring64_bitmap_frozen_view(const char *buf,
         uint64_t index = get_index(leaf);
         r->containers[index] = container_frozen_view(typecode, elem_count,
                                                      &bitsets, &arrays, &runs);
+        if (r->containers[index] == NULL) {
+            roaring64_bitmap_free(r);
+            return NULL;
+        }
 
         art_iterator_next(&it);
     }
-- 
2.43.0


From 4992cd0a6499e3f5792dc65bd3c24cadc2b46c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:18 +0000
Subject: [PATCH 22/33] fix: bitset_trim of a bitset without set bits left a
 dangling array

realloc(array, 0) releases the array and returns NULL, which was taken for a
failure: the bitset kept the released array.
---
 src/bitset.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bitset.c b/src/bitset.c
index 96fee90..c09a3c0 100644
--- a/src/bitset.c
+++ b/src/bitset.c
@@ -473,6 +473,13 @@ bool bitset_trim(bitset_t *bitset) {
             break;
     }
     if (bitset->capacity == newsize) return true;  // nothing to do
+    if (newsize == 0) {  // realloc to zero bytes would release the array
+        roaring_free(bitset->array);
+        bitset->array = NULL;
+        bitset->capacity = 0;
+        bitset->arraysize = 0;
+        return true;
+    }
     uint64_t *newarray;
     if ((newarray = (uint64_t *)roaring_realloc(
              bitset->array, sizeof(uint64_t) * newsize)) == NULL) {
-- 
2.43.0


From 0034a21a4c4bffad100c5f237e123ceded227770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:18 +0000
Subject: [PATCH 23/33] fix: bitset shifts went out of bounds

Shifting an empty bitset left read before its array, shifting right by more
than its size wrapped around, and a failed growth in bitset_shift_left was
ignored, writing past the end of the array.
---
 src/bitset.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/bitset.c b/src/bitset.c
index c09a3c0..fd696bc 100644
--- a/src/bitset.c
+++ b/src/bitset.c
@@ -90,14 +90,21 @@ void bitset_shift_left(bitset_t *bitset, size_t s) {
     size_t extra_words = s / 64;
     int inword_shift = s % 64;
     size_t as = bitset->arraysize;
+    if (as == 0) {
+        return;  // nothing to shift
+    }
     if (inword_shift == 0) {
-        bitset_resize(bitset, as + extra_words, false);
+        if (!bitset_resize(bitset, as + extra_words, false)) {
+            return;
+        }
         // could be done with a memmove
         for (size_t i = as + extra_words; i > extra_words; i--) {
             bitset->array[i - 1] = bitset->array[i - 1 - extra_words];
         }
     } else {
-        bitset_resize(bitset, as + extra_words + 1, true);
+        if (!bitset_resize(bitset, as + extra_words + 1, true)) {
+            return;
+        }
         bitset->array[as + extra_words] =
             bitset->array[as - 1] >> (64 - inword_shift);
         for (size_t i = as + extra_words; i >= extra_words + 2; i--) {
@@ -116,6 +123,10 @@ void bitset_shift_right(bitset_t *bitset, size_t s) {
     size_t extra_words = s / 64;
     int inword_shift = s % 64;
     size_t as = bitset->arraysize;
+    if (extra_words >= as) {
+        bitset_resize(bitset, 0, false);  // every bit is shifted out
+        return;
+    }
     if (inword_shift == 0) {
         // could be done with a memmove
         for (size_t i = 0; i < as - extra_words; i++) {
-- 
2.43.0


From 286d497d956a6cffc94c0a586f6d3183767b013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:18 +0000
Subject: [PATCH 24/33] fix: failed in-place bitset union and symmetric
 difference lost bits

When the first bitset could not be grown, the calls reported failure after
having combined part of the second bitset into it. Grow first.
---
 src/bitset.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/bitset.c b/src/bitset.c
index fd696bc..adb4c06 100644
--- a/src/bitset.c
+++ b/src/bitset.c
@@ -215,15 +215,15 @@ bool bitset_inplace_union(bitset_t *CROARING_CBITSET_RESTRICT b1,
                           const bitset_t *CROARING_CBITSET_RESTRICT b2) {
     size_t minlength =
         b1->arraysize < b2->arraysize ? b1->arraysize : b2->arraysize;
-    for (size_t k = 0; k < minlength; ++k) {
-        b1->array[k] |= b2->array[k];
-    }
     if (b2->arraysize > b1->arraysize) {
         size_t oldsize = b1->arraysize;
         if (!bitset_resize(b1, b2->arraysize, false)) return false;
         memcpy(b1->array + oldsize, b2->array + oldsize,
                (b2->arraysize - oldsize) * sizeof(uint64_t));
     }
+    for (size_t k = 0; k < minlength; ++k) {
+        b1->array[k] |= b2->array[k];
+    }
     return true;
 }
 
@@ -440,16 +440,15 @@ bool bitset_inplace_symmetric_difference(
     const bitset_t *CROARING_CBITSET_RESTRICT b2) {
     size_t minlength =
         b1->arraysize < b2->arraysize ? b1->arraysize : b2->arraysize;
-    size_t k = 0;
-    for (; k < minlength; ++k) {
-        b1->array[k] ^= b2->array[k];
-    }
     if (b2->arraysize > b1->arraysize) {
         size_t oldsize = b1->arraysize;
         if (!bitset_resize(b1, b2->arraysize, false)) return false;
         memcpy(b1->array + oldsize, b2->array + oldsize,
                (b2->arraysize - oldsize) * sizeof(uint64_t));
     }
+    for (size_t k = 0; k < minlength; ++k) {
+        b1->array[k] ^= b2->array[k];
+    }
     return true;
 }
 
-- 
2.43.0


From c16f3fdf003ab4d665921e388e4097ffacc69255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 25/33] fix: assigning a Roaring to itself emptied it

---
 cpp/roaring.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/roaring.hh b/cpp/roaring.hh
index 8a3b8b6..10ae284 100644
--- a/cpp/roaring.hh
+++ b/cpp/roaring.hh
@@ -152,6 +152,9 @@ class Roaring {
      * It may throw std::runtime_error if there is insufficient memory.
      */
     Roaring &operator=(const Roaring &r) {
+        if (this == &r) {
+            return *this;
+        }
         if (!api::roaring_bitmap_overwrite(&roaring, &r.roaring)) {
             ROARING_TERMINATE("failed memory alloc in assignment");
         }
-- 
2.43.0


From a2b716031fcafc29fe876ef858f0b54b41e635d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 26/33] fix: Roaring64Map::runOptimize and removeRunCompression
 reported only the last state of all bitmaps together

---
 cpp/roaring64map.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index 7de53cb..4d6c0ea 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -986,9 +986,9 @@ class Roaring64Map {
      */
     bool removeRunCompression() {
         return std::accumulate(
-            roarings.begin(), roarings.end(), true,
+            roarings.begin(), roarings.end(), false,
             [](bool previous, std::pair<const uint32_t, Roaring> &map_entry) {
-                return map_entry.second.removeRunCompression() && previous;
+                return map_entry.second.removeRunCompression() || previous;
             });
     }
 
@@ -1000,9 +1000,9 @@ class Roaring64Map {
      */
     bool runOptimize() {
         return std::accumulate(
-            roarings.begin(), roarings.end(), true,
+            roarings.begin(), roarings.end(), false,
             [](bool previous, std::pair<const uint32_t, Roaring> &map_entry) {
-                return map_entry.second.runOptimize() && previous;
+                return map_entry.second.runOptimize() || previous;
             });
     }
 
-- 
2.43.0


From d4c11e700cecbf4daad424d29680a96fd5e4f1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 27/33] fix: Roaring64Map::fastunion crashed when a union could
 not be allocated

---
 cpp/roaring64map.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index 4d6c0ea..8c26caa 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1544,6 +1544,9 @@ class Roaring64Map {
             // Use the fast inner union to combine these.
             auto *inner_result = roaring_bitmap_or_many(group_bitmaps.size(),
                                                         group_bitmaps.data());
+            if (inner_result == NULL) {
+                ROARING_TERMINATE("failed memory alloc in fastunion");
+            }
             // Insert the 32-bit result at end of the 'roarings' map of the
             // result we are building.
             result.roarings.insert(
-- 
2.43.0


From a637bc437505c58d7f7d9321a0e75d4052f6e0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 28/33] fix: comparing the end of a Roaring64Map with a
 position dereferenced the end

---
 cpp/roaring64map.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index 8c26caa..a6408a7 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1852,13 +1852,13 @@ class Roaring64MapSetBitBiDirectionalIterator {
 
     bool operator==(const Roaring64MapSetBitBiDirectionalIterator &o) const {
         if (map_iter == p->cend() && o.map_iter == o.p->cend()) return true;
-        if (o.map_iter == o.p->cend()) return false;
+        if (map_iter == p->cend() || o.map_iter == o.p->cend()) return false;
         return **this == *o;
     }
 
     bool operator!=(const Roaring64MapSetBitBiDirectionalIterator &o) const {
         if (map_iter == p->cend() && o.map_iter == o.p->cend()) return false;
-        if (o.map_iter == o.p->cend()) return true;
+        if (map_iter == p->cend() || o.map_iter == o.p->cend()) return true;
         return **this != *o;
     }
 
-- 
2.43.0


From 9b69ed18bd13b2432c24a07d164d8b5a6211060c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 29/33] fix: Roaring64Map iterators stopped on empty inner
 bitmaps

---
 cpp/roaring64map.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index a6408a7..158bc01 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1807,6 +1807,11 @@ class Roaring64MapSetBitBiDirectionalIterator {
                 if (map_iter == p->cend()) return false;
                 roaring_iterator_init(&map_iter->second.roaring, &i);
             }
+            while (!i.has_value) {  // skip empty bitmaps
+                ++map_iter;
+                if (map_iter == p->cend()) return false;
+                roaring_iterator_init(&map_iter->second.roaring, &i);
+            }
             return true;
         }
         return false;
@@ -1838,7 +1843,7 @@ class Roaring64MapSetBitBiDirectionalIterator {
         if (map_iter == p->cend()) {
             --map_iter;
             roaring_iterator_init_last(&map_iter->second.roaring, &i);
-            return orig;
+            if (i.has_value) return orig;
         }
 
         roaring_uint32_iterator_previous(&i);
-- 
2.43.0


From 41187d39a9eb6c0108ffecc06fcdc59dec0c80f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 30/33] fix: Roaring64Map readers lost their place when an
 inner bitmap would be written with another size

---
 cpp/roaring64map.hh | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index 158bc01..8648a26 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1177,7 +1177,8 @@ class Roaring64Map {
             // read map value Roaring
             Roaring read_var = Roaring::read(buf, portable);
             // forward buffer past the last Roaring Bitmap
-            buf += read_var.getSizeInBytes(portable);
+            buf += serializedSize(
+                buf, (std::numeric_limits<size_t>::max)() / 2, portable);
             result.emplaceOrInsert(key, std::move(read_var));
         }
         return result;
@@ -1212,7 +1213,7 @@ class Roaring64Map {
             // read map value Roaring
             Roaring read_var = Roaring::readSafe(buf, maxbytes);
             // forward buffer past the last Roaring Bitmap
-            size_t tz = read_var.getSizeInBytes(true);
+            size_t tz = serializedSize(buf, maxbytes, true);
             buf += tz;
             maxbytes -= tz;
             result.emplaceOrInsert(key, std::move(read_var));
@@ -1289,7 +1290,8 @@ class Roaring64Map {
             // read map value Roaring
             Roaring read_var = Roaring::portableDeserializeFrozen(buf);
             // forward buffer past the last Roaring bitmap
-            buf += read_var.getSizeInBytes(true);
+            buf += serializedSize(
+                buf, (std::numeric_limits<size_t>::max)() / 2, true);
             result.emplaceOrInsert(key, std::move(read_var));
         }
         return result;
@@ -1593,6 +1595,26 @@ class Roaring64Map {
                                          const uint32_t lowBytes) {
         return (uint64_t(highBytes) << 32) | uint64_t(lowBytes);
     }
+    /**
+     * Number of bytes of the serialized Roaring at `buf`. The bitmap read from
+     * these bytes may need another number of bytes when it is written again.
+     */
+    static size_t serializedSize(const char *buf, size_t maxbytes,
+                                 bool portable) {
+        if (portable) {
+            return api::roaring_bitmap_portable_deserialize_size(buf, maxbytes);
+        }
+        // see roaring_bitmap_serialize: a type, then an array of 32-bit values
+        // or a portable bitmap
+        const char array_uint32 = 1;
+        if (buf[0] == array_uint32) {
+            uint32_t card;
+            std::memcpy(&card, buf + 1, sizeof(uint32_t));
+            return 1 + sizeof(uint32_t) + size_t(card) * sizeof(uint32_t);
+        }
+        return 1 + api::roaring_bitmap_portable_deserialize_size(buf + 1,
+                                                                 maxbytes - 1);
+    }
     // this is needed to tolerate gcc's C++11 libstdc++ lacking emplace
     // prior to version 4.8
     void emplaceOrInsert(const uint32_t key, const Roaring &value) {
-- 
2.43.0


From 550328b3677a8753f20a411e1ac5ddf2e2a29303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:34 +0000
Subject: [PATCH 31/33] fix: shrink_to_fit reallocated containers shared with
 other bitmaps

---
 src/roaring.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index 39debd6..4649213 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -1468,6 +1468,16 @@ size_t roaring_bitmap_shrink_to_fit(roaring_bitmap_t *r) {
         uint8_t type_original;
         container_t *c = ra_get_container_at_index(&r->high_low_container,
                                                    (uint16_t)i, &type_original);
+        if (type_original == SHARED_CONTAINER_TYPE) {
+            // Other bitmaps may be using the container (possibly in other
+            // threads): it may only be touched by its last owner.
+            if (croaring_refcount_get(&CAST_shared(c)->counter) != 1) {
+                continue;
+            }
+            ra_unshare_container_at_index(&r->high_low_container, (uint16_t)i);
+            c = ra_get_container_at_index(&r->high_low_container, (uint16_t)i,
+                                          &type_original);
+        }
         answer += container_shrink_to_fit(c, type_original);
     }
     answer += ra_shrink_to_fit(&r->high_low_container);
-- 
2.43.0


From d180ac4a2a10371d2ece8ca79be1409ce977c2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 32/33] fix: shrink_to_fit returned elements instead of bytes
 for array and run containers

---
 src/containers/array.c | 3 ++-
 src/containers/run.c   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/containers/array.c b/src/containers/array.c
index 4b5e5bc..13e2923 100644
--- a/src/containers/array.c
+++ b/src/containers/array.c
@@ -128,7 +128,8 @@ void array_container_offset(const array_container_t *c, container_t **loc,
 
 int array_container_shrink_to_fit(array_container_t *src) {
     if (src->cardinality == src->capacity) return 0;  // nothing to do
-    int savings = src->capacity - src->cardinality;
+    int savings =
+        (src->capacity - src->cardinality) * (int)sizeof(uint16_t);
     src->capacity = src->cardinality;
     if (src->capacity ==
         0) {  // we do not want to rely on realloc for zero allocs
diff --git a/src/containers/run.c b/src/containers/run.c
index 986db6d..1431aca 100644
--- a/src/containers/run.c
+++ b/src/containers/run.c
@@ -107,7 +107,7 @@ run_container_t *run_container_create_given_capacity(int32_t size) {
 
 int run_container_shrink_to_fit(run_container_t *src) {
     if (src->n_runs == src->capacity) return 0;  // nothing to do
-    int savings = src->capacity - src->n_runs;
+    int savings = (src->capacity - src->n_runs) * (int)sizeof(rle16_t);
     src->capacity = src->n_runs;
     rle16_t *oldruns = src->runs;
     src->runs =
-- 
2.43.0


From a34406d9d3f0444c74149d68d55e6e81631444ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:01 +0000
Subject: [PATCH 33/33] fix: shrinking a bitmap that became empty releases all
 of its tree nodes

---
 src/art/art.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/art/art.c b/src/art/art.c
index 8e54d43..189bba9 100644
--- a/src/art/art.c
+++ b/src/art/art.c
@@ -1808,8 +1808,8 @@ size_t art_shrink_to_fit(art_t *art) {
     if (art_is_shrunken(art)) {
         return 0;
     }
+    art_sort_free_lists(art);
     if (art->root != CROARING_ART_NULL_REF) {
-        art_sort_free_lists(art);
         art->root = art_move_node_to_shrink(art, art->root);
         art_shrink_at(art, art->root);
     }
-- 
2.43.0

