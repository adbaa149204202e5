From 04c8e526036cbca930c2a5b701c2a9a2b4d3dfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 01/33] fix: quiet/fence on a space context also completes its
 active messages

---
 src/internal/order_impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/order_impl.h b/src/internal/order_impl.h
index 8d0bcb0..38745ea 100644
--- a/src/internal/order_impl.h
+++ b/src/internal/order_impl.h
@@ -38,6 +38,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_fence(shmem_ctx_t ctx OSHMPI_ATTRIBU
     if (ctx != SHMEM_CTX_DEFAULT) {
         /* Fence on specific context (window) */
         ctx_flush_impl(&(((OSHMPI_ctx_t *) ctx)->ictx));
+        /* AM operations are not separated by context */
+        OSHMPI_am_flush_all(ctx);
         return;
     }
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
@@ -69,6 +71,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_quiet(shmem_ctx_t ctx)
     if (ctx != SHMEM_CTX_DEFAULT) {
         /* Quiet on specific context (window) */
         ctx_flush_impl(&(((OSHMPI_ctx_t *) ctx)->ictx));
+        /* AM operations are not separated by context */
+        OSHMPI_am_flush_all(ctx);
         return;
     }
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-- 
2.43.0


From 4e91a0cee22c3bf79537e989b16a84f1d68c2939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 02/33] fix: quiet/fence skip spaces that are not attached

---
 src/internal/order_impl.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/internal/order_impl.h b/src/internal/order_impl.h
index 38745ea..9600220 100644
--- a/src/internal/order_impl.h
+++ b/src/internal/order_impl.h
@@ -54,10 +54,14 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_fence(shmem_ctx_t ctx OSHMPI_ATTRIBU
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
     LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
         int i;
-        for (i = 0; i < space->config.num_contexts; i++)
-            ctx_flush_impl(&(space->ctx_list[i].ictx));
+        /* No window exists while the space is not attached */
+        if (space->ctx_list) {
+            for (i = 0; i < space->config.num_contexts; i++)
+                ctx_flush_impl(&(space->ctx_list[i].ictx));
+        }
 #ifndef OSHMPI_ENABLE_DYNAMIC_WIN
-        ctx_flush_impl(&space->default_ictx);
+        if (space->default_ictx.win != MPI_WIN_NULL)
+            ctx_flush_impl(&space->default_ictx);
 #endif
     }
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
@@ -87,10 +91,14 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_quiet(shmem_ctx_t ctx)
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
     LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
         int i;
-        for (i = 0; i < space->config.num_contexts; i++)
-            ctx_flush_impl(&(space->ctx_list[i].ictx));
+        /* No window exists while the space is not attached */
+        if (space->ctx_list) {
+            for (i = 0; i < space->config.num_contexts; i++)
+                ctx_flush_impl(&(space->ctx_list[i].ictx));
+        }
 #ifndef OSHMPI_ENABLE_DYNAMIC_WIN
-        ctx_flush_impl(&space->default_ictx);
+        if (space->default_ictx.win != MPI_WIN_NULL)
+            ctx_flush_impl(&space->default_ictx);
 #endif
     }
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
-- 
2.43.0


From a457a8c07e13b4c4c818023a91352c010344a38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 03/33] fix: publish a space in the space list only after it is
 initialized

---
 src/internal/space_impl.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index 881054f..53993ce 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -197,11 +197,6 @@ void OSHMPI_space_create(shmemx_space_config_t space_config, OSHMPI_space_t ** s
     OSHMPI_sobj_init_attr(&space->sobj_attr, space_config.memkind, base, size);
     OSHMPI_sobj_set_handle(&space->sobj_attr, OSHMPI_SOBJ_SPACE_HEAP, 0, 0);
 
-    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
-    LL_APPEND(OSHMPI_global.space_list.head, space);
-    OSHMPI_global.space_list.nspaces++;
-    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
-
     space->ctx_list = NULL;
     space->config = space_config;
 #ifndef OSHMPI_ENABLE_DYNAMIC_WIN
@@ -209,6 +204,12 @@ void OSHMPI_space_create(shmemx_space_config_t space_config, OSHMPI_space_t ** s
     OSHMPIU_ATOMIC_FLAG_STORE(space->default_ictx.outstanding_op, 0);
 #endif
 
+    /* Other threads may traverse the list, thus publish only initialized spaces */
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
+    LL_APPEND(OSHMPI_global.space_list.head, space);
+    OSHMPI_global.space_list.nspaces++;
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
+
     char space_hints[64];
     space_hints_str(space->config.hints, space_hints, 64);
 
-- 
2.43.0


From 0240bb3f6f5a807e998a031516b16efe2e99a0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 04/33] fix: barriers complete updates to memory spaces and to
 PEs outside the active set

---
 src/internal/coll_activeset_impl.h | 14 ++++----------
 src/internal/coll_impl.h           | 12 +++---------
 2 files changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index 36a9079..9774754 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -119,16 +119,10 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_barrier(int PE_start, int logPE_stride,
 {
     MPI_Comm comm = MPI_COMM_NULL;
 
-    /* Ensure completion of all outstanding Put, AMO, and nonblocking Put */
-#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_ictx.win));
-#else
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_heap_ictx.win));
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_data_ictx.win));
-#endif
-
-    /* Ensure AM completion (e.g., AM AMOs) */
-    OSHMPI_am_flush(SHMEM_CTX_DEFAULT, PE_start, logPE_stride, PE_size);
+    /* Ensure completion of all outstanding Put, AMO, and nonblocking Put,
+     * including those to memory spaces, those transferred by AM, and those
+     * to PEs that are not in the active set */
+    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
 
     /* Ensure completion of memory store */
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
diff --git a/src/internal/coll_impl.h b/src/internal/coll_impl.h
index 243168d..9c2b427 100644
--- a/src/internal/coll_impl.h
+++ b/src/internal/coll_impl.h
@@ -11,15 +11,9 @@
 #include "oshmpi_util.h"
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_barrier_all(void)
 {
-    /* Ensure completion of all outstanding Put, AMO, and nonblocking Put */
-#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_ictx.win));
-#else
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_heap_ictx.win));
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_data_ictx.win));
-#endif
-    /* Ensure AM completion (e.g., AM AMOs) */
-    OSHMPI_am_flush_all(SHMEM_CTX_DEFAULT);
+    /* Ensure completion of all outstanding Put, AMO, and nonblocking Put,
+     * including those to memory spaces and those transferred by AM */
+    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
 
     /* Ensure completion of memory store */
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-- 
2.43.0


From 049bac5c67d8f8efee955c61e73d4d189d02b00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 05/33] fix: finalize completes outstanding active messages
 before terminating

---
 src/internal/setup_impl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 2c0e21d..2eef95d 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -861,8 +861,8 @@ static void finalize_impl(void)
     /* Implicit global barrier is required to ensure
      * that pending communications are completed and that no resources
      * are released until all PEs have entered shmem_finalize.
-     * The completion part is ensured in unlock calls.*/
-    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
+     * Active messages have to be flushed before their targets terminate. */
+    OSHMPI_barrier_all();
 
     OSHMPI_coll_finalize();
     OSHMPI_am_finalize();
-- 
2.43.0


From 2a9733e9e7dc7fc56ba919a5179689dfe978e3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 06/33] fix: clear_lock completes outstanding updates before
 releasing the lock

---
 src/internal/lock_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internal/lock_impl.h b/src/internal/lock_impl.h
index 4928f7f..0f5f41e 100644
--- a/src/internal/lock_impl.h
+++ b/src/internal/lock_impl.h
@@ -94,6 +94,9 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_clear_lock(long *lockp)
 
     OSHMPI_ASSERT(sizeof(long) >= sizeof(OSHMPI_lock_t));
 
+    /* Updates made while holding the lock must be complete before it is released */
+    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
+
     OSHMPI_sobj_query_attr_ictx(SHMEM_CTX_DEFAULT, (const void *) &lock->last,
                                 OSHMPI_LOCK_ROOT_WRANK, &sobj_attr, &ictx);
     OSHMPI_ASSERT(sobj_attr && ictx);
-- 
2.43.0


From 6651e3f84f122b2a4b51f8a5716b0d0e4899b95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 07/33] fix: ctx_destroy completes the operations of the
 context

---
 src/internal/ctx_impl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/internal/ctx_impl.c b/src/internal/ctx_impl.c
index 812a798..748612d 100644
--- a/src/internal/ctx_impl.c
+++ b/src/internal/ctx_impl.c
@@ -8,6 +8,8 @@
 
 void OSHMPI_ctx_destroy(OSHMPI_ctx_t * ctx)
 {
+    /* A context is destroyed only after its operations have completed */
+    OSHMPI_ctx_quiet((shmem_ctx_t) ctx);
     OSHMPIU_ATOMIC_FLAG_STORE(ctx->used_flag, 0);
 
     /* Do not free window.
-- 
2.43.0


From 988c36d404c97526eb090f1e463992eaa1f9c2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 08/33] fix: realloc waits for outstanding updates before it
 moves the buffer

---
 src/internal/mem_impl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/mem_impl.c b/src/internal/mem_impl.c
index 5b920e7..8ba9dfe 100644
--- a/src/internal/mem_impl.c
+++ b/src/internal/mem_impl.c
@@ -55,6 +55,10 @@ void *OSHMPI_realloc(void *ptr, size_t size)
     if (size == 0 && ptr == NULL)
         return ptr;
 
+    /* Other PEs may still update the old buffer until all PEs have arrived */
+    if (ptr != NULL)
+        OSHMPI_barrier_all();
+
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);
     rptr = mspace_realloc(OSHMPI_global.symm_heap_mspace, ptr, size);
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
-- 
2.43.0


From a25c341a222d03cf6d665af69c28d540991c09e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:43 +0000
Subject: [PATCH 09/33] fix: zero-size space allocation must not write past the
 pool bookkeeping

---
 src/internal/util/mem_pool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/util/mem_pool.c b/src/internal/util/mem_pool.c
index db2b3d5..17ae69d 100644
--- a/src/internal/util/mem_pool.c
+++ b/src/internal/util/mem_pool.c
@@ -62,7 +62,7 @@ void *OSHMPIU_mempool_alloc(OSUMPIU_mempool_t * mem_pool, size_t size)
             break;
     }
 
-    if (navail == nalloc) {
+    if (nalloc > 0 && navail == nalloc) {
         int first_off = off - navail;
         ptr = (char *) mem_pool->base + first_off * mem_pool->chunk_size;
         mem_pool->chunks_nused[first_off] = nalloc;
-- 
2.43.0


From 9b54cd12aec334e82022df7bf3b94450feec2a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:43 +0000
Subject: [PATCH 10/33] fix: space_calloc allocates count elements and clears
 them before the barrier

---
 src/include/oshmpi_impl.h |  1 +
 src/internal/space_impl.c | 21 +++++++++++++++++++++
 src/shmemx/space.c        |  3 +--
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/include/oshmpi_impl.h b/src/include/oshmpi_impl.h
index 74d4a8d..f2b3550 100644
--- a/src/include/oshmpi_impl.h
+++ b/src/include/oshmpi_impl.h
@@ -389,6 +389,7 @@ int OSHMPI_space_create_ctx(OSHMPI_space_t * space, long options, OSHMPI_ctx_t *
 void OSHMPI_space_attach(OSHMPI_space_t * space);
 void OSHMPI_space_detach(OSHMPI_space_t * space);
 void *OSHMPI_space_malloc(OSHMPI_space_t * space, size_t size);
+void *OSHMPI_space_calloc(OSHMPI_space_t * space, size_t count, size_t size);
 void *OSHMPI_space_align(OSHMPI_space_t * space, size_t alignment, size_t size);
 void OSHMPI_space_free(OSHMPI_space_t * space, void *ptr);
 
diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index 53993ce..ccd850c 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -374,6 +374,27 @@ void *OSHMPI_space_malloc(OSHMPI_space_t * space, size_t size)
     return ptr;
 }
 
+/* Collectively allocate a zero-initialized array from the space. The buffer is cleared
+ * before the barrier, because it may be remotely accessed once a PE leaves the barrier. */
+void *OSHMPI_space_calloc(OSHMPI_space_t * space, size_t count, size_t size)
+{
+    void *ptr = NULL;
+
+    if (size == 0 || count <= SIZE_MAX / size) {
+        OSHMPI_THREAD_ENTER_CS(&space->mem_pool_cs);
+        ptr = OSHMPIU_mempool_alloc(&space->mem_pool, count * size);
+        OSHMPI_THREAD_EXIT_CS(&space->mem_pool_cs);
+    }
+
+    if (ptr != NULL)
+        memset(ptr, 0, count * size);
+
+    OSHMPI_DBGMSG("space_calloc from space %p, count %ld, size %ld -> ptr %p\n",
+                  space, count, size, ptr);
+    OSHMPI_barrier_all();
+    return ptr;
+}
+
 /* Collectively allocate a buffer from the space with byte alignment */
 void *OSHMPI_space_align(OSHMPI_space_t * space, size_t alignment, size_t size)
 {
diff --git a/src/shmemx/space.c b/src/shmemx/space.c
index 4e45509..7353258 100644
--- a/src/shmemx/space.c
+++ b/src/shmemx/space.c
@@ -50,8 +50,7 @@ void *shmemx_space_calloc(shmemx_space_t space, size_t count, size_t size)
 {
     void *ptr = NULL;
     OSHMPI_NOINLINE_RECURSIVE()
-        ptr = OSHMPI_space_malloc((OSHMPI_space_t *) space, size);
-    memset(ptr, 0, size);
+        ptr = OSHMPI_space_calloc((OSHMPI_space_t *) space, count, size);
     return ptr;
 }
 
-- 
2.43.0


From 391912df9a65fbf3780270c77ad9db88c4891b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 11/33] fix: host spaces are page aligned so that space_align
 can align buffers

---
 src/internal/space_impl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index ccd850c..738fc71 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -184,7 +184,9 @@ void OSHMPI_space_create(shmemx_space_config_t space_config, OSHMPI_space_t ** s
             break;
         case SHMEMX_MEM_HOST:
         default:
-            base = OSHMPIU_malloc(size);
+            /* Page aligned so that the alignment of a buffer does not depend on the base */
+            if (posix_memalign(&base, OSHMPI_global.page_sz, size))
+                base = NULL;
             space_config.memkind = SHMEMX_MEM_HOST;
             break;
     }
-- 
2.43.0


From 19e9620826693884ef32307832869c1a2edc700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 12/33] fix: the symmetric heap range covers all memory the
 heap allocator can return

---
 src/internal/setup_impl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 2eef95d..06b6e26 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -181,7 +181,7 @@ static void attach_symm_heap(void)
 
     /* Setup sobj attributes */
     int symm_flag = 0;
-    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, size);
+    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, true_size);
     OSHMPI_sobj_symm_info_allgather(&OSHMPI_global.symm_heap_attr, &symm_flag);
     OSHMPI_sobj_set_handle(&OSHMPI_global.symm_heap_attr, OSHMPI_SOBJ_SYMM_HEAP, symm_flag, 0);
 
@@ -267,7 +267,7 @@ static void initialize_symm_heap(void)
 
     /* Setup sobj attributes */
     int symm_flag = 0;
-    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, size);
+    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, true_size);
     OSHMPI_sobj_symm_info_allgather(&OSHMPI_global.symm_heap_attr, &symm_flag);
     OSHMPI_sobj_set_handle(&OSHMPI_global.symm_heap_attr, OSHMPI_SOBJ_SYMM_HEAP, symm_flag, 0);
 
-- 
2.43.0


From da6f85f7de8b9882a2d46c1248c21446f9e77501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 13/33] fix: SHMEM_TEAM_SHARED contains only the PEs that share
 memory

---
 src/internal/setup_impl.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 06b6e26..837faa4 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -807,9 +807,9 @@ void OSHMPI_initialize_thread(int required, int *provided)
     OSHMPI_global.team_world->config.num_contexts = 0;
 
     /* Create SHMEM_TEAM_SHARED */
-    OSHMPI_CALLMPI(MPI_Comm_split(OSHMPI_global.team_world_comm, MPI_COMM_TYPE_SHARED,
-                                  OSHMPI_global.team_world_my_pe,
-                                  &(OSHMPI_global.team_shared_comm)));
+    OSHMPI_CALLMPI(MPI_Comm_split_type(OSHMPI_global.team_world_comm, MPI_COMM_TYPE_SHARED,
+                                       OSHMPI_global.team_world_my_pe, MPI_INFO_NULL,
+                                       &(OSHMPI_global.team_shared_comm)));
     OSHMPI_CALLMPI(MPI_Comm_size(OSHMPI_global.team_shared_comm, &OSHMPI_global.team_shared_n_pes));
     OSHMPI_CALLMPI(MPI_Comm_rank(OSHMPI_global.team_shared_comm, &OSHMPI_global.team_shared_my_pe));
     OSHMPI_CALLMPI(MPI_Comm_group(OSHMPI_global.team_shared_comm,
-- 
2.43.0


From 7c03f2de7e434ee15271f6764d4fe6c4aab2fd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 14/33] fix: finalize destroys the symmetric heap lock with
 dynamic windows

---
 src/internal/setup_impl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 837faa4..298eef0 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -882,6 +882,7 @@ static void finalize_impl(void)
         OSHMPIU_free_symm_mem(OSHMPI_global.symm_heap_attr.base, OSHMPI_global.symm_heap_true_size);
     else
         OSHMPIU_free(OSHMPI_global.symm_heap_attr.base);
+    OSHMPI_THREAD_DESTROY_CS(&OSHMPI_global.symm_heap_mspace_cs);
 #else
     if (OSHMPI_global.symm_heap_ictx.win != MPI_WIN_NULL) {
         OSHMPI_CALLMPI(MPI_Win_unlock_all(OSHMPI_global.symm_heap_ictx.win));
-- 
2.43.0


From b72d870376e63ec100e0ea4b0c340daed32698a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 15/33] fix: team_sync synchronizes every valid team

---
 src/internal/coll_impl.h |  7 +++++++
 src/shmem/coll.c         | 13 ++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/internal/coll_impl.h b/src/internal/coll_impl.h
index 9c2b427..609c9d8 100644
--- a/src/internal/coll_impl.h
+++ b/src/internal/coll_impl.h
@@ -39,6 +39,13 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync_all(void)
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync_team(OSHMPI_team_t * team)
 {
+    /* Ensure completion of previously issued memory store */
+#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
+    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_ictx.win));
+#else
+    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_heap_ictx.win));
+    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_data_ictx.win));
+#endif
     OSHMPI_am_progress_mpi_barrier(team->comm);
 }
 
diff --git a/src/shmem/coll.c b/src/shmem/coll.c
index 972f3d2..fd26f34 100644
--- a/src/shmem/coll.c
+++ b/src/shmem/coll.c
@@ -13,11 +13,14 @@ void shmem_barrier_all(void)
 
 int shmem_team_sync(shmem_team_t team)
 {
-    if (team == SHMEM_TEAM_WORLD) {
-        OSHMPI_sync_all();
-        return SHMEM_SUCCESS;
-    }
-    return SHMEM_OTHER_ERR;
+    OSHMPI_team_t *team_obj;
+
+    if (team == SHMEM_TEAM_INVALID)
+        return SHMEM_OTHER_ERR;
+
+    OSHMPI_TEAM_GET_OBJ(team, team_obj);
+    OSHMPI_sync_team(team_obj);
+    return SHMEM_SUCCESS;
 }
 
 void shmem_sync_all(void)
-- 
2.43.0


From 6edaed0b105de98eaf3a1459d2e056cd3e6096d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 16/33] fix: active-set broadcast takes the root as an ordinal
 of the active set

---
 src/internal/coll_activeset_impl.h | 44 ++++--------------------------
 1 file changed, 5 insertions(+), 39 deletions(-)

diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index 9774754..94c6709 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -152,22 +152,6 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync(int PE_start, int logPE_stride, int
     OSHMPI_am_progress_mpi_barrier(comm);
 }
 
-/* Return 1 if root is included in the active set, otherwise 0. */
-OSHMPI_STATIC_INLINE_PREFIX int coll_check_root_in_active_set(int PE_root,
-                                                              int PE_start, int logPE_stride,
-                                                              int PE_size)
-{
-    int i, included = 0;
-    const int pe_stride = 1 << logPE_stride;    /* Implement 2^pe_logs with bitshift. */
-    for (i = 0; i < PE_size; i++) {
-        if (PE_root == PE_start + i * pe_stride) {
-            included = 1;
-            break;
-        }
-    }
-    return included;
-}
-
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_broadcast(void *dest, const void *source, size_t nelems,
                                                   MPI_Datatype mpi_type, int PE_root, int PE_start,
                                                   int logPE_stride, int PE_size)
@@ -176,29 +160,11 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_broadcast(void *dest, const void *source
 
     coll_acquire_comm(PE_start, logPE_stride, PE_size, &comm);
 
-    /* Special path: directly use MPI_Bcast if root is included in active set */
-    if (coll_check_root_in_active_set(PE_root, PE_start, logPE_stride, PE_size)) {
-        OSHMPI_am_progress_mpi_bcast(PE_root ==
-                                     OSHMPI_global.team_world_my_pe ? (void *) source : dest,
-                                     nelems, mpi_type, PE_root, comm);
-    } else {
-        OSHMPI_ictx_t *ictx = NULL;
-        OSHMPI_sobj_attr_t *sobj_attr = NULL;
-        MPI_Aint target_disp = -1;
-
-        /* Generic path: every PE in active set gets data from root
-         * FIXME: the semantics ensures dest is updated only on local PE at return,
-         * thus we assume barrier is unneeded.*/
-        OSHMPI_sobj_query_attr_ictx(SHMEM_CTX_DEFAULT, source, PE_root, &sobj_attr, &ictx);
-        OSHMPI_ASSERT(sobj_attr && ictx);
-        OSHMPI_sobj_trans_vaddr_to_disp(sobj_attr, source, PE_root,
-                                        OSHMPI_ICTX_DISP_MODE(ictx), &target_disp);
-        OSHMPI_ASSERT(target_disp >= 0);
-
-        OSHMPI_CALLMPI(MPI_Get
-                       (dest, nelems, mpi_type, PE_root, target_disp, nelems, mpi_type, ictx->win));
-        OSHMPI_CALLMPI(MPI_Win_flush_local(PE_root, ictx->win));
-    }
+    /* PE_root is the ordinal of the root PE in the active set, i.e., its rank in comm */
+    const int root_pe = PE_start + PE_root * (1 << logPE_stride);
+    OSHMPI_am_progress_mpi_bcast(root_pe ==
+                                 OSHMPI_global.team_world_my_pe ? (void *) source : dest,
+                                 nelems, mpi_type, PE_root, comm);
 }
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_collect(void *dest, const void *source, size_t nelems,
-- 
2.43.0


From 4205eef3a50b8281eeed9b536fd6b834da49c7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 17/33] fix: symmetric sizes above 16M are parsed exactly

---
 src/include/oshmpi_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/oshmpi_util.h b/src/include/oshmpi_util.h
index 0d55ac3..ac64cc8 100644
--- a/src/include/oshmpi_util.h
+++ b/src/include/oshmpi_util.h
@@ -147,7 +147,7 @@ OSHMPI_STATIC_INLINE_PREFIX uint64_t OSHMPIU_str_to_size(char *s)
     double val;
     char *e;
 
-    val = (double) strtof(s, &e);
+    val = strtod(s, &e);
     if (e == NULL || *e == '\0')
         return val;
 
-- 
2.43.0


From 80a4bea447c2903087778dffe1c5b53d72be408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:29 +0000
Subject: [PATCH 18/33] fix: team_split_strided rejects invalid sizes and
 strides instead of dividing by zero

---
 src/shmem/team.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/shmem/team.c b/src/shmem/team.c
index cc3b68d..335fffa 100644
--- a/src/shmem/team.c
+++ b/src/shmem/team.c
@@ -127,6 +127,13 @@ int shmem_team_split_strided(shmem_team_t parent_team, int start, int stride, in
         goto fn_fail;
     }
 
+    /* A team of a single PE may be described with a zero stride */
+    if (size < 1 || stride < 0 || (stride == 0 && size > 1)) {
+        goto fn_fail;
+    }
+    if (stride == 0)
+        stride = 1;
+
     int end_pe = start + stride * (size - 1);
     if (end_pe < 0 || end_pe >= _parent_team->n_pes) {
         goto fn_fail;
-- 
2.43.0


From 4fd3b7969471559b147381b289f471e632c92e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:44 +0000
Subject: [PATCH 19/33] fix: wrap the packet tag counter before it exceeds the
 tag upper bound

---
 src/internal/am_impl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/internal/am_impl.h b/src/internal/am_impl.h
index c5081be..a888eed 100644
--- a/src/internal/am_impl.h
+++ b/src/internal/am_impl.h
@@ -14,7 +14,10 @@
  * have specific source rank. However, here we use an atomic counter per PE for simplicity. */
 OSHMPI_STATIC_INLINE_PREFIX int OSHMPI_am_get_pkt_ptag(void)
 {
-    int tag = OSHMPIU_ATOMIC_CNT_FINC(OSHMPI_am.pkt_ptag_off) + OSHMPI_AM_PKT_PTAG_START;
+    /* Wrap around before exceeding the upper bound of tags. */
+    unsigned int off = (unsigned int) OSHMPIU_ATOMIC_CNT_FINC(OSHMPI_am.pkt_ptag_off);
+    int tag = (int) (off % (unsigned int) (OSHMPI_am.pkt_ptag_ub - OSHMPI_AM_PKT_PTAG_START))
+        + OSHMPI_AM_PKT_PTAG_START;
     OSHMPI_ASSERT(tag < OSHMPI_am.pkt_ptag_ub);
     return tag;
 }
-- 
2.43.0


From e27e975f28af285e2b9e4571c8a217d870b1e2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 20/33] fix: make AM progress until all PEs have entered team
 split and destroy (deadlock with active messages)

---
 src/internal/team_impl.c | 2 ++
 src/shmem/team.c         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/internal/team_impl.c b/src/internal/team_impl.c
index 048c83a..97a32ba 100644
--- a/src/internal/team_impl.c
+++ b/src/internal/team_impl.c
@@ -47,6 +47,8 @@ int OSHMPI_team_split(OSHMPI_team_t * team, int color, OSHMPI_team_t ** new_team
     MPI_Comm new_comm;
     MPI_Group new_group;
 
+    /* No AM progress is made in the blocking call, thus ensure that all PEs have entered */
+    OSHMPI_am_progress_mpi_barrier(team->comm);
     OSHMPI_CALLMPI(MPI_Comm_split(team->comm, color, team->my_pe, &new_comm));
 
     if (new_comm != MPI_COMM_NULL) {
diff --git a/src/shmem/team.c b/src/shmem/team.c
index 335fffa..c08ce1d 100644
--- a/src/shmem/team.c
+++ b/src/shmem/team.c
@@ -225,5 +225,7 @@ void shmem_team_destroy(shmem_team_t team)
         return;
     }
     _team = OSHMPI_TEAM_HANDLE_TO_OBJ(team);
+    /* No AM progress is made in the blocking calls, thus ensure that all PEs have entered */
+    OSHMPI_am_progress_mpi_barrier(_team->comm);
     OSHMPI_team_destroy(&_team);
 }
-- 
2.43.0


From 7b776175dceae99411e64079fdeee888ec6754ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 21/33] fix: make AM progress until all PEs have entered space
 attach and detach (deadlock with active messages)

---
 src/internal/space_impl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index 738fc71..4915a45 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -283,6 +283,9 @@ void OSHMPI_space_attach(OSHMPI_space_t * space)
     /* Space should not be attached yet */
     OSHMPI_ASSERT(!space->ctx_list);
 
+    /* No AM progress is made in the blocking calls, thus ensure that all PEs have entered */
+    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
+
     OSHMPI_CALLMPI(MPI_Info_create(&info));
     OSHMPI_set_mpi_info_args(info);
 
@@ -338,8 +341,9 @@ void OSHMPI_space_detach(OSHMPI_space_t * space)
 {
     int i;
 
-#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
+    /* No AM progress is made in the blocking calls, thus ensure that all PEs have entered */
     OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
+#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
     OSHMPI_CALLMPI(MPI_Win_detach(OSHMPI_global.symm_ictx.win, space->sobj_attr.base));
 #else
     /* Destroy internal window */
-- 
2.43.0


From e0a50aeefa5dea78c7191db63c6e92b8cd8c037f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 22/33] fix: make AM progress until all PEs of a new active set
 have entered the collective (deadlock with active messages)

---
 src/internal/coll_activeset_impl.h | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index 94c6709..ff43b5a 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -70,6 +70,28 @@ OSHMPI_STATIC_INLINE_PREFIX int coll_find_comm_cache(int PE_start, int logPE_str
     return found;
 }
 
+/* Synchronize the PEs of an active set which has no communicator yet. Progress is made
+ * while waiting, because the other PEs may need it before they can enter the collective. */
+OSHMPI_STATIC_INLINE_PREFIX void coll_presync(const int *pe_list, int PE_size)
+{
+    const int root = pe_list[0];
+    int i;
+
+    if (OSHMPI_global.team_world_my_pe == root) {
+        for (i = 1; i < PE_size; i++)
+            OSHMPI_am_progress_mpi_recv(NULL, 0, MPI_BYTE, pe_list[i], root /* tag */ ,
+                                        OSHMPI_global.team_world_comm, MPI_STATUS_IGNORE);
+        for (i = 1; i < PE_size; i++)
+            OSHMPI_am_progress_mpi_send(NULL, 0, MPI_BYTE, pe_list[i], root /* tag */ ,
+                                        OSHMPI_global.team_world_comm);
+    } else {
+        OSHMPI_am_progress_mpi_send(NULL, 0, MPI_BYTE, root, root /* tag */ ,
+                                    OSHMPI_global.team_world_comm);
+        OSHMPI_am_progress_mpi_recv(NULL, 0, MPI_BYTE, root, root /* tag */ ,
+                                    OSHMPI_global.team_world_comm, MPI_STATUS_IGNORE);
+    }
+}
+
 OSHMPI_STATIC_INLINE_PREFIX void coll_acquire_comm(int PE_start, int logPE_stride, int PE_size,
                                                    MPI_Comm * comm)
 {
@@ -104,7 +126,8 @@ OSHMPI_STATIC_INLINE_PREFIX void coll_acquire_comm(int PE_start, int logPE_strid
 
     OSHMPI_CALLMPI(MPI_Group_incl
                    (OSHMPI_global.team_world_group, PE_size, pe_list, &strided_group));
-    /* Only collective on the strided_group. */
+    /* Only collective on the strided_group. No AM progress is made in the blocking call. */
+    coll_presync(pe_list, PE_size);
     OSHMPI_CALLMPI(MPI_Comm_create_group
                    (OSHMPI_global.team_world_comm, strided_group, PE_start /* tag */ , comm));
     OSHMPIU_free(pe_list);
-- 
2.43.0


From ec2766806663900390b673d1465d099daf1d03cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 23/33] fix: make AM progress in a failed test_lock (polling it
 could deadlock with active messages)

---
 src/internal/lock_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internal/lock_impl.h b/src/internal/lock_impl.h
index 0f5f41e..7df73cf 100644
--- a/src/internal/lock_impl.h
+++ b/src/internal/lock_impl.h
@@ -167,6 +167,9 @@ OSHMPI_STATIC_INLINE_PREFIX int OSHMPI_test_lock(long *lockp)
         OSHMPI_DBGMSG("locked %p, curid=%d\n", lockp, curid - 1);
         return 0;
     }
+
+    /* The holder may need progress of this PE before it can release the lock */
+    OSHMPI_am_cb_progress();
     return 1;
 }
 
-- 
2.43.0


From cf4f676517c24a52a8d1755069364df7f9488cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 24/33] fix: locate the next field of a lock on the PE accessed
 (dynamic windows use per-PE addresses)

---
 src/internal/lock_impl.h | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/internal/lock_impl.h b/src/internal/lock_impl.h
index 7df73cf..9cf4d2f 100644
--- a/src/internal/lock_impl.h
+++ b/src/internal/lock_impl.h
@@ -24,6 +24,19 @@ typedef struct OSHMPI_lock_s {
                                  * other bits: next pe who is waiting on me to release this lock */
 } OSHMPI_lock_t;
 
+/* Displacement of the next field on a PE. It may differ between PEs (see OSHMPI_ABS_DISP). */
+OSHMPI_STATIC_INLINE_PREFIX MPI_Aint lock_get_next_disp(OSHMPI_lock_t * lock, int pe,
+                                                        OSHMPI_sobj_attr_t * sobj_attr,
+                                                        OSHMPI_ictx_t * ictx)
+{
+    MPI_Aint lock_next_disp = -1;
+
+    OSHMPI_sobj_trans_vaddr_to_disp(sobj_attr, (const void *) &lock->next, pe,
+                                    OSHMPI_ICTX_DISP_MODE(ictx), &lock_next_disp);
+    OSHMPI_ASSERT(lock_next_disp >= 0);
+    return lock_next_disp;
+}
+
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_set_lock(long *lockp)
 {
     int myid = OSHMPI_global.team_world_my_pe + 1;
@@ -46,8 +59,6 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_set_lock(long *lockp)
                                     OSHMPI_ICTX_DISP_MODE(ictx), &lock_last_disp);
     OSHMPI_ASSERT(lock_last_disp >= 0);
 
-    lock_next_disp = lock_last_disp + sizeof(int);
-
     /* Reset my local bits. No one accesses to my next bits now. */
     lock->next = 0;
     OSHMPI_CALLMPI(MPI_Win_sync(ictx->win));
@@ -61,12 +72,15 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_set_lock(long *lockp)
 
     /* If I am not the last, notify the previous last about me, and wait for release */
     if (curid != zero) {
+        lock_next_disp = lock_get_next_disp(lock, curid - 1, sobj_attr, ictx);
         OSHMPI_CALLMPI(MPI_Accumulate(&next, 1, MPI_UNSIGNED, curid - 1, lock_next_disp,
                                       1, MPI_UNSIGNED, MPI_BOR, ictx->win));
         OSHMPI_CALLMPI(MPI_Win_flush(curid - 1, ictx->win));
 
         /* Wait till received release signal of this lock.
          * Do not reset, we will reset at next set_lock call. */
+        lock_next_disp =
+            lock_get_next_disp(lock, OSHMPI_global.team_world_my_pe, sobj_attr, ictx);
         while (1) {
             OSHMPI_CALLMPI(MPI_Fetch_and_op
                            (NULL, &signal, MPI_UNSIGNED, OSHMPI_global.team_world_my_pe,
@@ -104,8 +118,6 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_clear_lock(long *lockp)
                                     OSHMPI_ICTX_DISP_MODE(ictx), &lock_last_disp);
     OSHMPI_ASSERT(lock_last_disp >= 0);
 
-    lock_next_disp = lock_last_disp + sizeof(int);
-
     /* Release the lock in root process if I am the last one holding the lock */
     OSHMPI_CALLMPI(MPI_Compare_and_swap
                    (&zero, &myid, &curid, MPI_INT, OSHMPI_LOCK_ROOT_WRANK, lock_last_disp,
@@ -115,6 +127,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_clear_lock(long *lockp)
 
     /* If I am not the last one, then notify the next that I released */
     if (curid != myid) {
+        lock_next_disp =
+            lock_get_next_disp(lock, OSHMPI_global.team_world_my_pe, sobj_attr, ictx);
         while (1) {
             OSHMPI_CALLMPI(MPI_Fetch_and_op
                            (NULL, &next, MPI_UNSIGNED, OSHMPI_global.team_world_my_pe,
@@ -131,6 +145,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_clear_lock(long *lockp)
         OSHMPI_CALLMPI(MPI_Win_sync(ictx->win));
 
         /* Set next PE's signal bit */
+        lock_next_disp = lock_get_next_disp(lock, nextid - 1, sobj_attr, ictx);
         OSHMPI_CALLMPI(MPI_Accumulate(&signal, 1, MPI_UNSIGNED, nextid - 1, lock_next_disp, 1,
                                       MPI_UNSIGNED, MPI_BOR, ictx->win));
         OSHMPI_CALLMPI(MPI_Win_flush(nextid - 1, ictx->win));
-- 
2.43.0


From c75d5d1c0d1059f662d845d9a8861562f866ae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 25/33] fix: sized put and get pass the element size in bytes,
 not bits

---
 maint/rma_sizedef.txt | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/maint/rma_sizedef.txt b/maint/rma_sizedef.txt
index da5992c..9487eaa 100644
--- a/maint/rma_sizedef.txt
+++ b/maint/rma_sizedef.txt
@@ -1,6 +1,6 @@
-# SIZE, SIZENAME, MPITYPE
-8, 8, MPI_UINT8_T
-16, 16, MPI_UINT16_T
-32, 32, MPI_UINT32_T
-64, 64, MPI_UINT64_T
-128, 128, MPI_C_DOUBLE_COMPLEX
\ No newline at end of file
+# SIZE (bytes), SIZENAME (bits), MPITYPE
+1, 8, MPI_UINT8_T
+2, 16, MPI_UINT16_T
+4, 32, MPI_UINT32_T
+8, 64, MPI_UINT64_T
+16, 128, MPI_C_DOUBLE_COMPLEX
\ No newline at end of file
-- 
2.43.0


From 8e19f8cd31b47f0e09711e24fe6445d6a17fdbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 26/33] fix: allocation fails when the symmetric heap is
 exhausted instead of returning memory outside of it

---
 src/internal/setup_impl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 298eef0..2374c7a 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -190,6 +190,8 @@ static void attach_symm_heap(void)
                                                              OSHMPI_global.thread_level ==
                                                              SHMEM_THREAD_MULTIPLE ? 1 : 0);
     OSHMPI_ASSERT(OSHMPI_global.symm_heap_mspace != NULL);
+    /* Memory mapped by the allocator when the heap is exhausted is not remotely accessible */
+    mspace_set_footprint_limit(OSHMPI_global.symm_heap_mspace, true_size);
     OSHMPI_THREAD_INIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
 
     OSHMPI_CALLMPI(MPI_Win_attach(OSHMPI_global.symm_ictx.win, base, true_size));
@@ -276,6 +278,8 @@ static void initialize_symm_heap(void)
                                                              OSHMPI_global.thread_level ==
                                                              SHMEM_THREAD_MULTIPLE ? 1 : 0);
     OSHMPI_ASSERT(OSHMPI_global.symm_heap_mspace != NULL);
+    /* Memory mapped by the allocator when the heap is exhausted is not remotely accessible */
+    mspace_set_footprint_limit(OSHMPI_global.symm_heap_mspace, true_size);
     OSHMPI_THREAD_INIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
 
     OSHMPI_CALLMPI(MPI_Win_lock_all(MPI_MODE_NOCHECK, OSHMPI_global.symm_heap_ictx.win));
-- 
2.43.0


From 4d2afa109bc5ff0f73717e7a8d195cb2ad64291b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:54 +0000
Subject: [PATCH 27/33] fix: realloc to size zero frees the buffer

---
 src/internal/mem_impl.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/internal/mem_impl.c b/src/internal/mem_impl.c
index 8ba9dfe..cf62f91 100644
--- a/src/internal/mem_impl.c
+++ b/src/internal/mem_impl.c
@@ -60,7 +60,10 @@ void *OSHMPI_realloc(void *ptr, size_t size)
         OSHMPI_barrier_all();
 
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);
-    rptr = mspace_realloc(OSHMPI_global.symm_heap_mspace, ptr, size);
+    if (size == 0)      /* only free the buffer */
+        mspace_free(OSHMPI_global.symm_heap_mspace, ptr);
+    else
+        rptr = mspace_realloc(OSHMPI_global.symm_heap_mspace, ptr, size);
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
 
     OSHMPI_DBGMSG("ptr %p size %ld -> %p\n", ptr, size, rptr);
-- 
2.43.0


From e2a4682fa4dc4f9f217747f8019b7436863aca11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 28/33] fix: publish the contexts of a space only while they
 are usable (race of attach and detach with quiet)

---
 src/internal/space_impl.c | 60 +++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 15 deletions(-)

diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index 4915a45..745bb85 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -279,6 +279,10 @@ static int space_attach_idx = 0;
 void OSHMPI_space_attach(OSHMPI_space_t * space)
 {
     MPI_Info info = MPI_INFO_NULL;
+    OSHMPI_ctx_t *ctx_list = NULL;
+#ifndef OSHMPI_ENABLE_DYNAMIC_WIN
+    OSHMPI_ictx_t default_ictx;
+#endif
 
     /* Space should not be attached yet */
     OSHMPI_ASSERT(!space->ctx_list);
@@ -296,8 +300,10 @@ void OSHMPI_space_attach(OSHMPI_space_t * space)
      * TODO: need collectively define index when adding teams */
     int symm_flag = 0;
     OSHMPI_sobj_symm_info_allgather(&space->sobj_attr, &symm_flag);
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
     OSHMPI_sobj_set_handle(&space->sobj_attr, OSHMPI_SOBJ_SPACE_ATTACHED_HEAP,
                            symm_flag, space_attach_idx);
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
     space_attach_idx++;
 
     /* Create internal window */
@@ -308,31 +314,39 @@ void OSHMPI_space_attach(OSHMPI_space_t * space)
     OSHMPI_DBGMSG("attach space %p, default ctx: attach to symm_ictx\n", space);
 #else
     space_ictx_create(space->sobj_attr.base, (MPI_Aint) space->sobj_attr.size, info,
-                      &space->default_ictx);
+                      &default_ictx);
     OSHMPI_DBGMSG("attach space %p, default ctx: new ictx.win 0x%" PRIx64 "\n", space,
-                  (uint64_t) space->default_ictx.win);
+                  (uint64_t) default_ictx.win);
 #endif
     OSHMPI_sobj_symm_info_dbgprint(&space->sobj_attr);
 
     /* TODO: assume all processes have the same config */
     /* Create explicit-context windows */
     if (space->config.num_contexts > 0) {
-        space->ctx_list =
+        ctx_list =
             (OSHMPI_ctx_t *) OSHMPIU_malloc(sizeof(OSHMPI_ctx_t) * space->config.num_contexts);
         int i;
         for (i = 0; i < space->config.num_contexts; i++) {
             space_ictx_create(space->sobj_attr.base, (MPI_Aint) space->sobj_attr.size,
-                              info, &space->ctx_list[i].ictx);
+                              info, &ctx_list[i].ictx);
 
             /* copy into context to avoid pointer dereference in RMA/AMO path */
-            space->ctx_list[i].sobj_attr = space->sobj_attr;
-            OSHMPIU_ATOMIC_FLAG_STORE(space->ctx_list[i].used_flag, 0);
+            ctx_list[i].sobj_attr = space->sobj_attr;
+            OSHMPIU_ATOMIC_FLAG_STORE(ctx_list[i].used_flag, 0);
 
             OSHMPI_DBGMSG("attach space %p, private ctx[%d]: new ictx.win 0x%" PRIx64 "\n",
-                          space, i, (uint64_t) space->ctx_list[i].ictx.win);
+                          space, i, (uint64_t) ctx_list[i].ictx.win);
         }
     }
 
+    /* Other threads may flush the contexts in the list, thus publish only initialized contexts */
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
+#ifndef OSHMPI_ENABLE_DYNAMIC_WIN
+    space->default_ictx = default_ictx;
+#endif
+    space->ctx_list = ctx_list;
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
+
     OSHMPI_CALLMPI(MPI_Info_free(&info));
 }
 
@@ -340,29 +354,45 @@ void OSHMPI_space_attach(OSHMPI_space_t * space)
 void OSHMPI_space_detach(OSHMPI_space_t * space)
 {
     int i;
+    OSHMPI_ctx_t *ctx_list = NULL;
+#ifndef OSHMPI_ENABLE_DYNAMIC_WIN
+    OSHMPI_ictx_t default_ictx;
+#endif
 
     /* No AM progress is made in the blocking calls, thus ensure that all PEs have entered */
     OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
+
+    /* Space should have already be attached or no context is required at config */
+    OSHMPI_ASSERT((space->config.num_contexts == 0 || space->ctx_list));
+
+    /* Other threads may flush the contexts in the list, thus remove them before they are destroyed */
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
+#ifndef OSHMPI_ENABLE_DYNAMIC_WIN
+    default_ictx = space->default_ictx;
+    space->default_ictx.win = MPI_WIN_NULL;
+#endif
+    ctx_list = space->ctx_list;
+    space->ctx_list = NULL;
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
+
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
     OSHMPI_CALLMPI(MPI_Win_detach(OSHMPI_global.symm_ictx.win, space->sobj_attr.base));
 #else
     /* Destroy internal window */
-    space_ictx_destroy(&space->default_ictx);
+    space_ictx_destroy(&default_ictx);
 #endif
 
-    /* Space should have already be attached or no context is required at config */
-    OSHMPI_ASSERT((space->config.num_contexts == 0 || space->ctx_list));
-
     /* Destroy explicit-context windows */
     for (i = 0; i < space->config.num_contexts; i++) {
-        OSHMPI_ASSERT(OSHMPIU_ATOMIC_FLAG_LOAD(space->ctx_list[i].used_flag) == 0);
-        space_ictx_destroy(&space->ctx_list[i].ictx);
+        OSHMPI_ASSERT(OSHMPIU_ATOMIC_FLAG_LOAD(ctx_list[i].used_flag) == 0);
+        space_ictx_destroy(&ctx_list[i].ictx);
     }
-    OSHMPIU_free(space->ctx_list);
-    space->ctx_list = NULL;
+    OSHMPIU_free(ctx_list);
 
     OSHMPI_sobj_destroy_attr(&space->sobj_attr);
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
     OSHMPI_sobj_set_handle(&space->sobj_attr, OSHMPI_SOBJ_SPACE_HEAP, 0, 0);
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
 }
 
 /* Collectively allocate a buffer from the space */
-- 
2.43.0


From d65a6b5fb1fa7c679fc180f2b50f3365bd764bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:39 +0000
Subject: [PATCH 29/33] fix: do not forget the operations of other threads when
 a quiet or fetch completes (thread multiple)

---
 src/include/oshmpi_impl.h  | 13 +++++++++++++
 src/internal/am_impl.h     |  7 +++----
 src/internal/amo_am_impl.h |  4 ++--
 src/internal/order_impl.h  |  2 +-
 src/internal/rma_am_impl.h |  4 ++--
 5 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/include/oshmpi_impl.h b/src/include/oshmpi_impl.h
index f2b3550..c9189bf 100644
--- a/src/include/oshmpi_impl.h
+++ b/src/include/oshmpi_impl.h
@@ -829,6 +829,19 @@ enum {
 #define OSHMPI_SET_OUTSTANDING_OP(ctx, completion) do {} while (0)
 #endif
 
+/* Clear a flag of outstanding operations after a completion.
+ * Threaded: another thread may have issued an operation and set the flag
+ * since the completion started. The flag has to stay, otherwise a quiet
+ * of that thread skips its own operation. */
+#ifdef OSHMPI_ENABLE_THREAD_MULTIPLE
+#define OSHMPI_CLEAR_OUTSTANDING_FLAG(flag) do {                     \
+        if (OSHMPI_global.thread_level != SHMEM_THREAD_MULTIPLE)     \
+            OSHMPIU_ATOMIC_FLAG_STORE(flag, 0);                      \
+        } while (0)
+#else
+#define OSHMPI_CLEAR_OUTSTANDING_FLAG(flag) OSHMPIU_ATOMIC_FLAG_STORE(flag, 0)
+#endif
+
 
 OSHMPI_STATIC_INLINE_PREFIX size_t OSHMPI_get_mspace_sz(size_t bufsz)
 {
diff --git a/src/internal/am_impl.h b/src/internal/am_impl.h
index a888eed..fa98d2f 100644
--- a/src/internal/am_impl.h
+++ b/src/internal/am_impl.h
@@ -72,12 +72,11 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_am_flush(shmem_ctx_t ctx OSHMPI_ATTRIBUT
     OSHMPIU_free(reqs);
 
     /* Reset all flags
-     * Threaded: the flag might be concurrently updated by another thread,
-     * however, the user must use additional thread sync to ensure a flush
-     * completes the specific AMO. */
+     * Threaded: the flags are not reset because they might be concurrently
+     * updated by another thread. */
     for (i = 0; i < PE_size; i++) {
         pe = PE_start + i * pe_stride;
-        OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+        OSHMPI_CLEAR_OUTSTANDING_FLAG(OSHMPI_am.outstanding_op_flags[pe]);
     }
 }
 
diff --git a/src/internal/amo_am_impl.h b/src/internal/amo_am_impl.h
index 25834a9..d48f50c 100644
--- a/src/internal/amo_am_impl.h
+++ b/src/internal/amo_am_impl.h
@@ -45,7 +45,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_amo_am_cswap(OSHMPI_ictx_t * ictx,
 
     /* Reset flag since remote PE should have finished previous post
      * before handling this fetch. */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+    OSHMPI_CLEAR_OUTSTANDING_FLAG(OSHMPI_am.outstanding_op_flags[pe]);
 }
 
 /* Issue a fetch (with op) operation. Blocking wait until return of old value. */
@@ -88,7 +88,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_amo_am_fetch(OSHMPI_ictx_t * ictx,
 
     /* Reset flag since remote PE should have finished previous post
      * before handling this fetch. */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+    OSHMPI_CLEAR_OUTSTANDING_FLAG(OSHMPI_am.outstanding_op_flags[pe]);
 }
 
 /* Issue a post operation. Return immediately after sent AMO packet */
diff --git a/src/internal/order_impl.h b/src/internal/order_impl.h
index 9600220..574f488 100644
--- a/src/internal/order_impl.h
+++ b/src/internal/order_impl.h
@@ -15,7 +15,7 @@
 #endif
 
 #ifdef OSHMPI_ENABLE_OP_TRACKING
-#define RESET_FLAG(flag) do {OSHMPIU_ATOMIC_FLAG_STORE(flag, 0);} while (0)
+#define RESET_FLAG(flag) OSHMPI_CLEAR_OUTSTANDING_FLAG(flag)
 #else
 #define RESET_FLAG(flag) do {} while (0)
 #endif
diff --git a/src/internal/rma_am_impl.h b/src/internal/rma_am_impl.h
index 4089087..f632b0c 100644
--- a/src/internal/rma_am_impl.h
+++ b/src/internal/rma_am_impl.h
@@ -77,7 +77,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_get(OSHMPI_ictx_t * ictx,
 
     /* Reset flag since remote PE should have finished previous put
      * before handling this get. */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+    OSHMPI_CLEAR_OUTSTANDING_FLAG(OSHMPI_am.outstanding_op_flags[pe]);
 }
 
 /* Issue a strided PUT operation. Return immediately after sent PUT packet (local complete) */
@@ -169,7 +169,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_iget(OSHMPI_ictx_t * ictx,
 
     /* Reset flag since remote PE should have finished previous put
      * before handling this get. */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+    OSHMPI_CLEAR_OUTSTANDING_FLAG(OSHMPI_am.outstanding_op_flags[pe]);
     OSHMPI_free_strided_dtype(mpi_type, &origin_type);
 }
 
-- 
2.43.0


From 2eb976cd50616da8f3d718317e33b6e6c9ac8f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:35 +0000
Subject: [PATCH 30/33] fix: signal the end of the progress thread before its
 creator may destroy the condition

---
 src/internal/am_impl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/internal/am_impl.c b/src/internal/am_impl.c
index 08a4905..8d48bd0 100644
--- a/src/internal/am_impl.c
+++ b/src/internal/am_impl.c
@@ -77,8 +77,9 @@ static void *am_cb_async_progress(void *arg OSHMPI_ATTRIBUTE((unused)))
   terminate:
     OSHMPI_CALLPTHREAD(pthread_mutex_lock(&OSHMPI_am.async_mutex));
     OSHMPI_am.async_thread_done = 1;
-    OSHMPI_CALLPTHREAD(pthread_mutex_unlock(&OSHMPI_am.async_mutex));
+    /* Signal before unlock: the main thread destroys the condition once it sees the flag */
     OSHMPI_CALLPTHREAD(pthread_cond_signal(&OSHMPI_am.async_cond));
+    OSHMPI_CALLPTHREAD(pthread_mutex_unlock(&OSHMPI_am.async_mutex));
 
     return NULL;
 }
-- 
2.43.0


From 582d653e411129ca03ef0d9b0681067ac7eae206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:44 +0000
Subject: [PATCH 31/33] fix: reject strided teams whose last PE overflows an
 int

---
 src/shmem/team.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/shmem/team.c b/src/shmem/team.c
index c08ce1d..5c69bf6 100644
--- a/src/shmem/team.c
+++ b/src/shmem/team.c
@@ -134,10 +134,11 @@ int shmem_team_split_strided(shmem_team_t parent_team, int start, int stride, in
     if (stride == 0)
         stride = 1;
 
-    int end_pe = start + stride * (size - 1);
-    if (end_pe < 0 || end_pe >= _parent_team->n_pes) {
+    /* compare by division: start + stride * (size - 1) may not fit in an int */
+    if (size - 1 > (_parent_team->n_pes - 1 - start) / stride) {
         goto fn_fail;
     }
+    int end_pe = start + stride * (size - 1);
 
     /* There are two criterias for a PE to be included in the split team
      * 1. rank of the PE in parent team need to be between start and end (calculated using stride
-- 
2.43.0


From fa35540663fcd4ee0f6b43a92ee889e7e77df39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:44 +0000
Subject: [PATCH 32/33] fix: reject a 2D team split with a nonpositive xrange

---
 src/shmem/team.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shmem/team.c b/src/shmem/team.c
index 5c69bf6..2bc7b33 100644
--- a/src/shmem/team.c
+++ b/src/shmem/team.c
@@ -175,7 +175,7 @@ int shmem_team_split_2d(shmem_team_t parent_team, int xrange,
     OSHMPI_team_t *_new_x_team = NULL;
     OSHMPI_team_t *_new_y_team = NULL;
 
-    if (parent_team == SHMEM_TEAM_INVALID) {
+    if (parent_team == SHMEM_TEAM_INVALID || xrange < 1) {
         goto fn_fail;
     }
 
-- 
2.43.0


From 522d76686c5afc0292bad23cf754bc92fb7206c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:35 +0000
Subject: [PATCH 33/33] fix: recognise the documented value "all" of
 OSHMPI_AMO_OPS

---
 src/internal/setup_impl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 2374c7a..e86f571 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -308,7 +308,8 @@ static void set_env_amo_ops(const char *str, uint32_t * ops_ptr)
     if (!strncmp(value, "none", strlen("none"))) {
         *ops_ptr = 0;
         return;
-    } else if (!strncmp(value, "any_op", strlen("any_op"))) {
+    } else if (!strncmp(value, "any_op", strlen("any_op")) ||
+               !strncmp(value, "all", strlen("all"))) {
         OSHMPI_amo_op_shift_t op_shift;
         /* add all ops */
         for (op_shift = OSHMPI_AMO_CSWAP; op_shift < OSHMPI_AMO_OP_LAST; op_shift++)
-- 
2.43.0

