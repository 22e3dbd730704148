From 7e2909d9629a460bc9c341579ecd8f2fa5560c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 01/32] fix: pass the element size in bytes for the sized
 put/get routines

shmem_{get,put}{8..128}[_nbi] handed the bit width to the transport, so an
active-message get asked the target for eight times the requested bytes.
---
 src/shmem/rma_sized.c.tpl | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/shmem/rma_sized.c.tpl b/src/shmem/rma_sized.c.tpl
index 27b11f2..9ec43b4 100644
--- a/src/shmem/rma_sized.c.tpl
+++ b/src/shmem/rma_sized.c.tpl
@@ -12,26 +12,26 @@
 
 void shmem_getSIZENAME(void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_get(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE, dest /* origin_addr */ ,
+    OSHMPI_ctx_get(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE / 8, dest /* origin_addr */ ,
                    source /* target_addr */ , nelems, pe);
 }
 
 void shmem_ctx_getSIZENAME(shmem_ctx_t ctx, void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_get(ctx, MPI_TYPE, SIZE, dest /* origin_addr */ ,
+    OSHMPI_ctx_get(ctx, MPI_TYPE, SIZE / 8, dest /* origin_addr */ ,
                    source /* target_addr */ , nelems, pe);
 }
 
 void shmem_getSIZENAME_nbi(void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_get_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE, dest /* origin_addr */ ,
+    OSHMPI_ctx_get_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE / 8, dest /* origin_addr */ ,
                        source /* target_addr */ , nelems, pe);
 }
 
 void shmem_ctx_getSIZENAME_nbi(shmem_ctx_t ctx, void *dest, const void *source,
                                size_t nelems, int pe)
 {
-    OSHMPI_ctx_get_nbi(ctx, MPI_TYPE, SIZE, dest /* origin_addr */ ,
+    OSHMPI_ctx_get_nbi(ctx, MPI_TYPE, SIZE / 8, dest /* origin_addr */ ,
                        source /* target_addr */ , nelems, pe);
 }
 
@@ -51,13 +51,13 @@ void shmem_ctx_igetSIZENAME(shmem_ctx_t ctx, void *dest, const void *source, ptr
 
 void shmem_putSIZENAME(void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_put(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE, source /* origin_addr */ ,
+    OSHMPI_ctx_put(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE / 8, source /* origin_addr */ ,
                    dest /* target_addr */ , nelems, pe);
 }
 
 void shmem_ctx_putSIZENAME(shmem_ctx_t ctx, void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_put(ctx, MPI_TYPE, SIZE, source /* origin_addr */ ,
+    OSHMPI_ctx_put(ctx, MPI_TYPE, SIZE / 8, source /* origin_addr */ ,
                    dest /* target_addr */ , nelems, pe);
 }
 
@@ -77,14 +77,14 @@ void shmem_ctx_iputSIZENAME(shmem_ctx_t ctx, void *dest, const void *source,
 
 void shmem_putSIZENAME_nbi(void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_put_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE, source /* origin_addr */ ,
+    OSHMPI_ctx_put_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE / 8, source /* origin_addr */ ,
                        dest /* target_addr */ , nelems, pe);
 }
 
 void shmem_ctx_putSIZENAME_nbi(shmem_ctx_t ctx, void *dest, const void *source,
                                size_t nelems, int pe)
 {
-    OSHMPI_ctx_put_nbi(ctx, MPI_TYPE, SIZE, source /* origin_addr */ ,
+    OSHMPI_ctx_put_nbi(ctx, MPI_TYPE, SIZE / 8, source /* origin_addr */ ,
                        dest /* target_addr */ , nelems, pe);
 }
 /* TPL_BLOCK_END */
\ No newline at end of file
-- 
2.43.0


From 8c2703fadb2d7ebb9afb39e2fc6eec654ef25543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:31 +0000
Subject: [PATCH 02/32] fix: let the symmetric heap object cover all memory the
 heap hands out

The mspace is created over true_size bytes, the object attribute used for the
range check only covered size bytes, so that blocks close to the end of the
heap were rejected as not symmetric by RMA, AMO, free and shmem_ptr.
---
 src/internal/setup_impl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 2c0e21d..a454384 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -181,7 +181,7 @@ static void attach_symm_heap(void)
 
     /* Setup sobj attributes */
     int symm_flag = 0;
-    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, size);
+    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, true_size);
     OSHMPI_sobj_symm_info_allgather(&OSHMPI_global.symm_heap_attr, &symm_flag);
     OSHMPI_sobj_set_handle(&OSHMPI_global.symm_heap_attr, OSHMPI_SOBJ_SYMM_HEAP, symm_flag, 0);
 
@@ -267,7 +267,7 @@ static void initialize_symm_heap(void)
 
     /* Setup sobj attributes */
     int symm_flag = 0;
-    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, size);
+    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, true_size);
     OSHMPI_sobj_symm_info_allgather(&OSHMPI_global.symm_heap_attr, &symm_flag);
     OSHMPI_sobj_set_handle(&OSHMPI_global.symm_heap_attr, OSHMPI_SOBJ_SYMM_HEAP, symm_flag, 0);
 
-- 
2.43.0


From b71f0d411a24671434a7dc38a6a1474d8c408546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:06 +0000
Subject: [PATCH 03/32] fix: allocate and clear count * size bytes in
 shmemx_space_calloc

---
 src/include/oshmpi_impl.h |  1 +
 src/internal/space_impl.c | 21 +++++++++++++++++++++
 src/shmemx/space.c        |  3 +--
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/include/oshmpi_impl.h b/src/include/oshmpi_impl.h
index 74d4a8d..f2b3550 100644
--- a/src/include/oshmpi_impl.h
+++ b/src/include/oshmpi_impl.h
@@ -389,6 +389,7 @@ int OSHMPI_space_create_ctx(OSHMPI_space_t * space, long options, OSHMPI_ctx_t *
 void OSHMPI_space_attach(OSHMPI_space_t * space);
 void OSHMPI_space_detach(OSHMPI_space_t * space);
 void *OSHMPI_space_malloc(OSHMPI_space_t * space, size_t size);
+void *OSHMPI_space_calloc(OSHMPI_space_t * space, size_t count, size_t size);
 void *OSHMPI_space_align(OSHMPI_space_t * space, size_t alignment, size_t size);
 void OSHMPI_space_free(OSHMPI_space_t * space, void *ptr);
 
diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index 881054f..39c6b80 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -373,6 +373,27 @@ void *OSHMPI_space_malloc(OSHMPI_space_t * space, size_t size)
     return ptr;
 }
 
+/* Collectively allocate a zeroed buffer for count elements of size bytes from the space */
+void *OSHMPI_space_calloc(OSHMPI_space_t * space, size_t count, size_t size)
+{
+    void *ptr = NULL;
+
+    if (count == 0 || size <= SIZE_MAX / count) {
+        OSHMPI_THREAD_ENTER_CS(&space->mem_pool_cs);
+        ptr = OSHMPIU_mempool_alloc(&space->mem_pool, count * size);
+        OSHMPI_THREAD_EXIT_CS(&space->mem_pool_cs);
+    }
+
+    /* Zero before the barrier so that no remote update can be lost */
+    if (ptr)
+        memset(ptr, 0, count * size);
+
+    OSHMPI_DBGMSG("space_calloc from space %p, count %ld, size %ld -> ptr %p\n",
+                  space, count, size, ptr);
+    OSHMPI_barrier_all();
+    return ptr;
+}
+
 /* Collectively allocate a buffer from the space with byte alignment */
 void *OSHMPI_space_align(OSHMPI_space_t * space, size_t alignment, size_t size)
 {
diff --git a/src/shmemx/space.c b/src/shmemx/space.c
index 4e45509..7353258 100644
--- a/src/shmemx/space.c
+++ b/src/shmemx/space.c
@@ -50,8 +50,7 @@ void *shmemx_space_calloc(shmemx_space_t space, size_t count, size_t size)
 {
     void *ptr = NULL;
     OSHMPI_NOINLINE_RECURSIVE()
-        ptr = OSHMPI_space_malloc((OSHMPI_space_t *) space, size);
-    memset(ptr, 0, size);
+        ptr = OSHMPI_space_calloc((OSHMPI_space_t *) space, count, size);
     return ptr;
 }
 
-- 
2.43.0


From c532aa0acccc79aeb3898d731ed6a61c890710cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:06 +0000
Subject: [PATCH 04/32] fix: return NULL for zero and oversized requests in
 OSHMPIU_mempool_alloc

---
 src/internal/util/mem_pool.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/internal/util/mem_pool.c b/src/internal/util/mem_pool.c
index db2b3d5..03466a7 100644
--- a/src/internal/util/mem_pool.c
+++ b/src/internal/util/mem_pool.c
@@ -39,11 +39,15 @@ void OSHMPIU_mempool_destroy(OSUMPIU_mempool_t * mem_pool)
  * pointer of the starting address is returned; otherwise NULL is returned. */
 void *OSHMPIU_mempool_alloc(OSUMPIU_mempool_t * mem_pool, size_t size)
 {
-    int off = 0, navail = 0;
+    int off = 0, navail = 0, nalloc;
     void *ptr = NULL;
 
-    size_t aligned_sz = OSHMPI_ALIGN(size, mem_pool->chunk_size);
-    int nalloc = aligned_sz / mem_pool->chunk_size;
+    /* Reject the sizes which the region can never hold, so that neither the
+     * alignment nor the number of chunks can overflow. */
+    if (size == 0 || size > mem_pool->size)
+        return NULL;
+
+    nalloc = OSHMPI_ALIGN(size, mem_pool->chunk_size) / mem_pool->chunk_size;
 
     while (off < mem_pool->nchunks) {
         unsigned int nused = mem_pool->chunks_nused[off];
-- 
2.43.0


From 33b565da91a53f0e8b9e77fd59d7b6d252d39112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 05/32] fix: complete the updates of the critical region before
 releasing a lock

---
 src/internal/lock_impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/lock_impl.h b/src/internal/lock_impl.h
index 4928f7f..a332ebf 100644
--- a/src/internal/lock_impl.h
+++ b/src/internal/lock_impl.h
@@ -94,6 +94,10 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_clear_lock(long *lockp)
 
     OSHMPI_ASSERT(sizeof(long) >= sizeof(OSHMPI_lock_t));
 
+    /* All accesses to symmetric memory in the critical region must be complete
+     * before another PE can acquire the lock. */
+    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
+
     OSHMPI_sobj_query_attr_ictx(SHMEM_CTX_DEFAULT, (const void *) &lock->last,
                                 OSHMPI_LOCK_ROOT_WRANK, &sobj_attr, &ictx);
     OSHMPI_ASSERT(sobj_attr && ictx);
-- 
2.43.0


From ea7d58485fbc3f32ffea06c9a61d33aa124877be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 06/32] fix: skip spaces that are not attached in shmem_quiet
 and shmem_fence

---
 src/internal/order_impl.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/internal/order_impl.h b/src/internal/order_impl.h
index 8d0bcb0..10e0272 100644
--- a/src/internal/order_impl.h
+++ b/src/internal/order_impl.h
@@ -52,10 +52,12 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_fence(shmem_ctx_t ctx OSHMPI_ATTRIBU
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
     LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
         int i;
-        for (i = 0; i < space->config.num_contexts; i++)
+        /* The windows exist only while the space is attached */
+        for (i = 0; space->ctx_list && i < space->config.num_contexts; i++)
             ctx_flush_impl(&(space->ctx_list[i].ictx));
 #ifndef OSHMPI_ENABLE_DYNAMIC_WIN
-        ctx_flush_impl(&space->default_ictx);
+        if (space->default_ictx.win != MPI_WIN_NULL)
+            ctx_flush_impl(&space->default_ictx);
 #endif
     }
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
@@ -83,10 +85,12 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_quiet(shmem_ctx_t ctx)
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
     LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
         int i;
-        for (i = 0; i < space->config.num_contexts; i++)
+        /* The windows exist only while the space is attached */
+        for (i = 0; space->ctx_list && i < space->config.num_contexts; i++)
             ctx_flush_impl(&(space->ctx_list[i].ictx));
 #ifndef OSHMPI_ENABLE_DYNAMIC_WIN
-        ctx_flush_impl(&space->default_ictx);
+        if (space->default_ictx.win != MPI_WIN_NULL)
+            ctx_flush_impl(&space->default_ictx);
 #endif
     }
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
-- 
2.43.0


From c3facf03e5853394540fdadb2431685e1b4d8b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 07/32] fix: complete active messages in quiet and fence on a
 space context

---
 src/internal/order_impl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/internal/order_impl.h b/src/internal/order_impl.h
index 10e0272..ffa1c1c 100644
--- a/src/internal/order_impl.h
+++ b/src/internal/order_impl.h
@@ -38,6 +38,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_fence(shmem_ctx_t ctx OSHMPI_ATTRIBU
     if (ctx != SHMEM_CTX_DEFAULT) {
         /* Fence on specific context (window) */
         ctx_flush_impl(&(((OSHMPI_ctx_t *) ctx)->ictx));
+        OSHMPI_am_flush_all(ctx);
         return;
     }
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
@@ -71,6 +72,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_quiet(shmem_ctx_t ctx)
     if (ctx != SHMEM_CTX_DEFAULT) {
         /* Quiet on specific context (window) */
         ctx_flush_impl(&(((OSHMPI_ctx_t *) ctx)->ictx));
+        OSHMPI_am_flush_all(ctx);
         return;
     }
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-- 
2.43.0


From 991468028ed455b65f34b232030ff46ff4e7a98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 08/32] fix: complete all outstanding updates in barrier_all
 and barrier

---
 src/internal/coll_activeset_impl.h | 13 +++----------
 src/internal/coll_impl.h           | 12 +++---------
 2 files changed, 6 insertions(+), 19 deletions(-)

diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index 36a9079..fce648e 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -119,16 +119,9 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_barrier(int PE_start, int logPE_stride,
 {
     MPI_Comm comm = MPI_COMM_NULL;
 
-    /* Ensure completion of all outstanding Put, AMO, and nonblocking Put */
-#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_ictx.win));
-#else
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_heap_ictx.win));
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_data_ictx.win));
-#endif
-
-    /* Ensure AM completion (e.g., AM AMOs) */
-    OSHMPI_am_flush(SHMEM_CTX_DEFAULT, PE_start, logPE_stride, PE_size);
+    /* Ensure completion of all outstanding Put, AMO, and nonblocking Put, also
+     * those to the attached spaces, by AM, and to PEs outside the active set */
+    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
 
     /* Ensure completion of memory store */
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
diff --git a/src/internal/coll_impl.h b/src/internal/coll_impl.h
index 243168d..11ec98a 100644
--- a/src/internal/coll_impl.h
+++ b/src/internal/coll_impl.h
@@ -11,15 +11,9 @@
 #include "oshmpi_util.h"
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_barrier_all(void)
 {
-    /* Ensure completion of all outstanding Put, AMO, and nonblocking Put */
-#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_ictx.win));
-#else
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_heap_ictx.win));
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_data_ictx.win));
-#endif
-    /* Ensure AM completion (e.g., AM AMOs) */
-    OSHMPI_am_flush_all(SHMEM_CTX_DEFAULT);
+    /* Ensure completion of all outstanding Put, AMO, and nonblocking Put,
+     * also those to the attached spaces and by AM */
+    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
 
     /* Ensure completion of memory store */
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-- 
2.43.0


From dbe5ed730dfa85e7f4255febc6ad962e5b5b9a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 09/32] fix: take PE_root of an active-set broadcast as ordinal
 in the active set

---
 src/internal/coll_activeset_impl.h | 44 ++++--------------------------
 1 file changed, 5 insertions(+), 39 deletions(-)

diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index fce648e..b51c894 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -151,53 +151,19 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync(int PE_start, int logPE_stride, int
     OSHMPI_am_progress_mpi_barrier(comm);
 }
 
-/* Return 1 if root is included in the active set, otherwise 0. */
-OSHMPI_STATIC_INLINE_PREFIX int coll_check_root_in_active_set(int PE_root,
-                                                              int PE_start, int logPE_stride,
-                                                              int PE_size)
-{
-    int i, included = 0;
-    const int pe_stride = 1 << logPE_stride;    /* Implement 2^pe_logs with bitshift. */
-    for (i = 0; i < PE_size; i++) {
-        if (PE_root == PE_start + i * pe_stride) {
-            included = 1;
-            break;
-        }
-    }
-    return included;
-}
-
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_broadcast(void *dest, const void *source, size_t nelems,
                                                   MPI_Datatype mpi_type, int PE_root, int PE_start,
                                                   int logPE_stride, int PE_size)
 {
     MPI_Comm comm = MPI_COMM_NULL;
+    int my_rank = -1;
 
     coll_acquire_comm(PE_start, logPE_stride, PE_size, &comm);
 
-    /* Special path: directly use MPI_Bcast if root is included in active set */
-    if (coll_check_root_in_active_set(PE_root, PE_start, logPE_stride, PE_size)) {
-        OSHMPI_am_progress_mpi_bcast(PE_root ==
-                                     OSHMPI_global.team_world_my_pe ? (void *) source : dest,
-                                     nelems, mpi_type, PE_root, comm);
-    } else {
-        OSHMPI_ictx_t *ictx = NULL;
-        OSHMPI_sobj_attr_t *sobj_attr = NULL;
-        MPI_Aint target_disp = -1;
-
-        /* Generic path: every PE in active set gets data from root
-         * FIXME: the semantics ensures dest is updated only on local PE at return,
-         * thus we assume barrier is unneeded.*/
-        OSHMPI_sobj_query_attr_ictx(SHMEM_CTX_DEFAULT, source, PE_root, &sobj_attr, &ictx);
-        OSHMPI_ASSERT(sobj_attr && ictx);
-        OSHMPI_sobj_trans_vaddr_to_disp(sobj_attr, source, PE_root,
-                                        OSHMPI_ICTX_DISP_MODE(ictx), &target_disp);
-        OSHMPI_ASSERT(target_disp >= 0);
-
-        OSHMPI_CALLMPI(MPI_Get
-                       (dest, nelems, mpi_type, PE_root, target_disp, nelems, mpi_type, ictx->win));
-        OSHMPI_CALLMPI(MPI_Win_flush_local(PE_root, ictx->win));
-    }
+    /* PE_root is the ordinal of the root in the active set, i.e., its rank in comm */
+    OSHMPI_CALLMPI(MPI_Comm_rank(comm, &my_rank));
+    OSHMPI_am_progress_mpi_bcast(PE_root == my_rank ? (void *) source : dest,
+                                 nelems, mpi_type, PE_root, comm);
 }
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_collect(void *dest, const void *source, size_t nelems,
-- 
2.43.0


From 88bd4b93f4f0d2b96897a6b374638809c3b6c328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 10/32] fix: complete pending communication, also by AM, in
 shmem_finalize

---
 src/internal/setup_impl.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index a454384..97f6b96 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -860,9 +860,8 @@ static void finalize_impl(void)
 
     /* Implicit global barrier is required to ensure
      * that pending communications are completed and that no resources
-     * are released until all PEs have entered shmem_finalize.
-     * The completion part is ensured in unlock calls.*/
-    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
+     * are released until all PEs have entered shmem_finalize. */
+    OSHMPI_barrier_all();
 
     OSHMPI_coll_finalize();
     OSHMPI_am_finalize();
-- 
2.43.0


From de48fb81a33faf7d09603636b80755b9e6860332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 11/32] fix: wrap active message tags around instead of
 exceeding MPI_TAG_UB

---
 src/internal/am_impl.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/internal/am_impl.h b/src/internal/am_impl.h
index c5081be..a27665a 100644
--- a/src/internal/am_impl.h
+++ b/src/internal/am_impl.h
@@ -14,9 +14,11 @@
  * have specific source rank. However, here we use an atomic counter per PE for simplicity. */
 OSHMPI_STATIC_INLINE_PREFIX int OSHMPI_am_get_pkt_ptag(void)
 {
-    int tag = OSHMPIU_ATOMIC_CNT_FINC(OSHMPI_am.pkt_ptag_off) + OSHMPI_AM_PKT_PTAG_START;
-    OSHMPI_ASSERT(tag < OSHMPI_am.pkt_ptag_ub);
-    return tag;
+    /* Wrap around within the valid tags, reuse is safe since only a small number of
+     * operations can be in progress at the same time. */
+    unsigned int off = (unsigned int) OSHMPIU_ATOMIC_CNT_FINC(OSHMPI_am.pkt_ptag_off);
+    return off % (unsigned int) (OSHMPI_am.pkt_ptag_ub - OSHMPI_AM_PKT_PTAG_START) +
+        OSHMPI_AM_PKT_PTAG_START;
 }
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_am_flush(shmem_ctx_t ctx OSHMPI_ATTRIBUTE((unused)),
-- 
2.43.0


From 32b683bd62a68681a4b4d8f32297671a8a192d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 12/32] fix: create SHMEM_TEAM_SHARED from the PEs that share
 memory

---
 src/internal/setup_impl.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 97f6b96..5af41c0 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -807,9 +807,9 @@ void OSHMPI_initialize_thread(int required, int *provided)
     OSHMPI_global.team_world->config.num_contexts = 0;
 
     /* Create SHMEM_TEAM_SHARED */
-    OSHMPI_CALLMPI(MPI_Comm_split(OSHMPI_global.team_world_comm, MPI_COMM_TYPE_SHARED,
-                                  OSHMPI_global.team_world_my_pe,
-                                  &(OSHMPI_global.team_shared_comm)));
+    OSHMPI_CALLMPI(MPI_Comm_split_type(OSHMPI_global.team_world_comm, MPI_COMM_TYPE_SHARED,
+                                       OSHMPI_global.team_world_my_pe, MPI_INFO_NULL,
+                                       &(OSHMPI_global.team_shared_comm)));
     OSHMPI_CALLMPI(MPI_Comm_size(OSHMPI_global.team_shared_comm, &OSHMPI_global.team_shared_n_pes));
     OSHMPI_CALLMPI(MPI_Comm_rank(OSHMPI_global.team_shared_comm, &OSHMPI_global.team_shared_my_pe));
     OSHMPI_CALLMPI(MPI_Comm_group(OSHMPI_global.team_shared_comm,
-- 
2.43.0


From d70f722405a5e3aac7c78462ca4f1d6ec942b0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 13/32] fix: synchronize the PEs of any team in shmem_team_sync

---
 src/internal/coll_impl.h | 7 +++++++
 src/shmem/coll.c         | 8 +++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/internal/coll_impl.h b/src/internal/coll_impl.h
index 11ec98a..b634b13 100644
--- a/src/internal/coll_impl.h
+++ b/src/internal/coll_impl.h
@@ -39,6 +39,13 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync_all(void)
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync_team(OSHMPI_team_t * team)
 {
+    /* Ensure completion of previously issued memory store */
+#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
+    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_ictx.win));
+#else
+    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_heap_ictx.win));
+    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_data_ictx.win));
+#endif
     OSHMPI_am_progress_mpi_barrier(team->comm);
 }
 
diff --git a/src/shmem/coll.c b/src/shmem/coll.c
index 972f3d2..35c2e5c 100644
--- a/src/shmem/coll.c
+++ b/src/shmem/coll.c
@@ -13,11 +13,17 @@ void shmem_barrier_all(void)
 
 int shmem_team_sync(shmem_team_t team)
 {
+    OSHMPI_team_t *team_obj;
+
+    if (team == SHMEM_TEAM_INVALID)
+        return SHMEM_OTHER_ERR;
     if (team == SHMEM_TEAM_WORLD) {
         OSHMPI_sync_all();
         return SHMEM_SUCCESS;
     }
-    return SHMEM_OTHER_ERR;
+    OSHMPI_TEAM_GET_OBJ(team, team_obj);
+    OSHMPI_sync_team(team_obj);
+    return SHMEM_SUCCESS;
 }
 
 void shmem_sync_all(void)
-- 
2.43.0


From c28a2016ee1c5390820e1a7420623c1ee1e376cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 14/32] fix: handle zero and negative strides in
 shmem_team_split_strided

---
 src/include/oshmpi_impl.h |  2 +-
 src/internal/team_impl.c  |  4 ++--
 src/shmem/team.c          | 19 ++++++++++++++-----
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/include/oshmpi_impl.h b/src/include/oshmpi_impl.h
index f2b3550..f51e55b 100644
--- a/src/include/oshmpi_impl.h
+++ b/src/include/oshmpi_impl.h
@@ -397,7 +397,7 @@ void OSHMPI_ctx_destroy(OSHMPI_ctx_t * ctx);
 
 int OSHMPI_team_create(OSHMPI_team_t ** team);
 void OSHMPI_team_destroy(OSHMPI_team_t ** team);
-int OSHMPI_team_split(OSHMPI_team_t * team, int color, OSHMPI_team_t ** new_team);
+int OSHMPI_team_split(OSHMPI_team_t * team, int color, int key, OSHMPI_team_t ** new_team);
 
 /* Subroutines for rma. */
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_put_nbi(shmem_ctx_t ctx OSHMPI_ATTRIBUTE((unused)),
diff --git a/src/internal/team_impl.c b/src/internal/team_impl.c
index 048c83a..e28c97b 100644
--- a/src/internal/team_impl.c
+++ b/src/internal/team_impl.c
@@ -40,14 +40,14 @@ void OSHMPI_team_destroy(OSHMPI_team_t ** team)
     *team = NULL;
 }
 
-int OSHMPI_team_split(OSHMPI_team_t * team, int color, OSHMPI_team_t ** new_team)
+int OSHMPI_team_split(OSHMPI_team_t * team, int color, int key, OSHMPI_team_t ** new_team)
 {
     int rc = SHMEM_SUCCESS;
     OSHMPI_team_t *_new_team = NULL;
     MPI_Comm new_comm;
     MPI_Group new_group;
 
-    OSHMPI_CALLMPI(MPI_Comm_split(team->comm, color, team->my_pe, &new_comm));
+    OSHMPI_CALLMPI(MPI_Comm_split(team->comm, color, key, &new_comm));
 
     if (new_comm != MPI_COMM_NULL) {
         OSHMPI_CALLMPI(MPI_Comm_group(new_comm, &new_group));
diff --git a/src/shmem/team.c b/src/shmem/team.c
index cc3b68d..9d53699 100644
--- a/src/shmem/team.c
+++ b/src/shmem/team.c
@@ -127,6 +127,10 @@ int shmem_team_split_strided(shmem_team_t parent_team, int start, int stride, in
         goto fn_fail;
     }
 
+    if (size < 1 || (stride == 0 && size > 1)) {
+        goto fn_fail;
+    }
+
     int end_pe = start + stride * (size - 1);
     if (end_pe < 0 || end_pe >= _parent_team->n_pes) {
         goto fn_fail;
@@ -136,10 +140,15 @@ int shmem_team_split_strided(shmem_team_t parent_team, int start, int stride, in
      * 1. rank of the PE in parent team need to be between start and end (calculated using stride
      * and size).
      * 2. rank of the PE must be selected by the (start, stride, size). */
-    rank_selected = (_parent_team->my_pe >= start) && (_parent_team->my_pe <= end_pe)
-        && ((_parent_team->my_pe - start) % stride == 0);
+    int diff = _parent_team->my_pe - start;
+    if (diff == 0 || size == 1)
+        rank_selected = (diff == 0);
+    else
+        rank_selected = (diff % stride == 0) && (diff / stride > 0) && (diff / stride < size);
 
-    OSHMPI_team_split(_parent_team, (rank_selected) ? 1 : MPI_UNDEFINED, &_new_team);
+    /* PEs of the new team are numbered in the order of the (start, stride, size) triplet */
+    OSHMPI_team_split(_parent_team, (rank_selected) ? 1 : MPI_UNDEFINED,
+                      (stride < 0) ? -_parent_team->my_pe : _parent_team->my_pe, &_new_team);
 
     if (_new_team != NULL) {
         /* handle config if there is config and config_mask != 0 */
@@ -185,8 +194,8 @@ int shmem_team_split_2d(shmem_team_t parent_team, int xrange,
     int x_pos = _parent_team->my_pe % xrange;
     int y_pos = _parent_team->my_pe / xrange;
 
-    OSHMPI_team_split(_parent_team, y_pos, &_new_x_team);
-    OSHMPI_team_split(_parent_team, x_pos, &_new_y_team);
+    OSHMPI_team_split(_parent_team, y_pos, _parent_team->my_pe, &_new_x_team);
+    OSHMPI_team_split(_parent_team, x_pos, _parent_team->my_pe, &_new_y_team);
 
     if (_new_x_team != NULL) {
         if (xaxis_config && xaxis_mask != 0) {
-- 
2.43.0


From 4b46eacac0baec0493bcd58ebc929b95eea5346c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 15/32] fix: make AM progress until all PEs have arrived before
 blocking MPI collectives

---
 src/internal/coll_activeset_impl.h | 12 ++++++++++++
 src/internal/space_impl.c          |  9 ++++++++-
 src/internal/team_impl.c           |  3 +++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index b51c894..62c76fa 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -104,6 +104,18 @@ OSHMPI_STATIC_INLINE_PREFIX void coll_acquire_comm(int PE_start, int logPE_strid
 
     OSHMPI_CALLMPI(MPI_Group_incl
                    (OSHMPI_global.team_world_group, PE_size, pe_list, &strided_group));
+
+    /* Wait with AM progress until all PEs of the active set have arrived, because a
+     * PE which is late may depend on our progress but the MPI call below makes none. */
+    int myidx = (OSHMPI_global.team_world_my_pe - PE_start) / pe_stride;
+    for (int dist = 1; dist < PE_size; dist <<= 1) {
+        MPI_Request reqs[2];
+        OSHMPI_CALLMPI(MPI_Irecv(NULL, 0, MPI_BYTE, pe_list[(myidx - dist + PE_size) % PE_size],
+                                 PE_start, OSHMPI_global.team_world_comm, &reqs[0]));
+        OSHMPI_CALLMPI(MPI_Isend(NULL, 0, MPI_BYTE, pe_list[(myidx + dist) % PE_size],
+                                 PE_start, OSHMPI_global.team_world_comm, &reqs[1]));
+        OSHMPI_am_progress_mpi_waitall(2, reqs, MPI_STATUSES_IGNORE);
+    }
     /* Only collective on the strided_group. */
     OSHMPI_CALLMPI(MPI_Comm_create_group
                    (OSHMPI_global.team_world_comm, strided_group, PE_start /* tag */ , comm));
diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index 39c6b80..3007f93 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -280,6 +280,10 @@ void OSHMPI_space_attach(OSHMPI_space_t * space)
     /* Space should not be attached yet */
     OSHMPI_ASSERT(!space->ctx_list);
 
+    /* Wait with AM progress until all PEs have arrived, because a PE which is late
+     * may depend on our progress but the MPI calls below make none. */
+    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
+
     OSHMPI_CALLMPI(MPI_Info_create(&info));
     OSHMPI_set_mpi_info_args(info);
 
@@ -335,8 +339,11 @@ void OSHMPI_space_detach(OSHMPI_space_t * space)
 {
     int i;
 
-#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
+    /* Wait with AM progress until all PEs have arrived, because a PE which is late
+     * may depend on our progress but the MPI calls below make none. */
     OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
+
+#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
     OSHMPI_CALLMPI(MPI_Win_detach(OSHMPI_global.symm_ictx.win, space->sobj_attr.base));
 #else
     /* Destroy internal window */
diff --git a/src/internal/team_impl.c b/src/internal/team_impl.c
index e28c97b..752d86f 100644
--- a/src/internal/team_impl.c
+++ b/src/internal/team_impl.c
@@ -47,6 +47,9 @@ int OSHMPI_team_split(OSHMPI_team_t * team, int color, int key, OSHMPI_team_t **
     MPI_Comm new_comm;
     MPI_Group new_group;
 
+    /* Wait with AM progress until all PEs have arrived, because a PE which is late
+     * may depend on our progress but the MPI call below makes none. */
+    OSHMPI_am_progress_mpi_barrier(team->comm);
     OSHMPI_CALLMPI(MPI_Comm_split(team->comm, color, key, &new_comm));
 
     if (new_comm != MPI_COMM_NULL) {
-- 
2.43.0


From 1d80725170710fe57d23d983d96b88dce7ef0546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 16/32] fix: synchronize before shmem_realloc changes an
 existing allocation

---
 src/internal/mem_impl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/mem_impl.c b/src/internal/mem_impl.c
index 5b920e7..c0170f7 100644
--- a/src/internal/mem_impl.c
+++ b/src/internal/mem_impl.c
@@ -55,6 +55,10 @@ void *OSHMPI_realloc(void *ptr, size_t size)
     if (size == 0 && ptr == NULL)
         return ptr;
 
+    /* Other PEs may still access the existing allocation until all have arrived */
+    if (ptr != NULL)
+        OSHMPI_barrier_all();
+
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);
     rptr = mspace_realloc(OSHMPI_global.symm_heap_mspace, ptr, size);
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
-- 
2.43.0


From ccc456f1b9f31abd38a5f8e3171927e003260063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 17/32] fix: return aligned buffers from shmemx_space_align

---
 src/internal/space_impl.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index 3007f93..8fc6cad 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -184,7 +184,9 @@ void OSHMPI_space_create(shmemx_space_config_t space_config, OSHMPI_space_t ** s
             break;
         case SHMEMX_MEM_HOST:
         default:
-            base = OSHMPIU_malloc(size);
+            /* Page-aligned on all PEs, so that aligned buffers can be symmetric */
+            if (posix_memalign(&base, OSHMPI_global.page_sz, size))
+                base = NULL;
             space_config.memkind = SHMEMX_MEM_HOST;
             break;
     }
@@ -404,7 +406,13 @@ void *OSHMPI_space_calloc(OSHMPI_space_t * space, size_t count, size_t size)
 /* Collectively allocate a buffer from the space with byte alignment */
 void *OSHMPI_space_align(OSHMPI_space_t * space, size_t alignment, size_t size)
 {
-    return OSHMPI_space_malloc(space, OSHMPI_ALIGN(size, alignment));
+    /* Chunks start at page boundaries, thus a larger alignment cannot be ensured
+     * at the same offset on all PEs. */
+    if (alignment > OSHMPI_global.page_sz) {
+        OSHMPI_barrier_all();
+        return NULL;
+    }
+    return OSHMPI_space_malloc(space, size);
 }
 
 /* Collectively free a buffer from the space */
-- 
2.43.0


From 8821fe72528d7ff496a098cbbb9f98b397a04dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:02 +0000
Subject: [PATCH 18/32] fix: report attached spaces as accessible in
 shmem_addr_accessible

---
 src/shmem/setup.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/shmem/setup.c b/src/shmem/setup.c
index 2e619ff..5920be9 100644
--- a/src/shmem/setup.c
+++ b/src/shmem/setup.c
@@ -71,9 +71,24 @@ int shmem_pe_accessible(int pe)
 
 int shmem_addr_accessible(const void *addr, int pe)
 {
-    return ((OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_heap_attr) ||
-             OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_data_attr)) &&
-            (pe >= 0 && pe < OSHMPI_global.team_world_n_pes)) ? 1 : 0;
+    int accessible;
+    OSHMPI_space_t *space, *tmp;
+
+    if (pe < 0 || pe >= OSHMPI_global.team_world_n_pes)
+        return 0;
+
+    accessible = OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_heap_attr) ||
+        OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_data_attr);
+
+    /* Check attached spaces */
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
+    LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
+        if (OSHMPI_SOBJ_HANDLE_GET_KIND(space->sobj_attr.handle) == OSHMPI_SOBJ_SPACE_ATTACHED_HEAP
+            && OSHMPI_sobj_check_range(addr, space->sobj_attr))
+            accessible = 1;
+    }
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
+    return accessible ? 1 : 0;
 }
 
 void *shmem_ptr(const void *dest, int pe)
-- 
2.43.0


From 0db4857c127948d05a57f8de597b8d52e105f08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 19/32] fix: do not extend the symmetric heap by non-symmetric
 memory when it is exhausted

---
 src/internal/setup_impl.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 5af41c0..40db12f 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -190,6 +190,9 @@ static void attach_symm_heap(void)
                                                              OSHMPI_global.thread_level ==
                                                              SHMEM_THREAD_MULTIPLE ? 1 : 0);
     OSHMPI_ASSERT(OSHMPI_global.symm_heap_mspace != NULL);
+    /* The heap must not grow by memory that is not symmetric */
+    mspace_set_footprint_limit(OSHMPI_global.symm_heap_mspace,
+                               mspace_footprint(OSHMPI_global.symm_heap_mspace));
     OSHMPI_THREAD_INIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
 
     OSHMPI_CALLMPI(MPI_Win_attach(OSHMPI_global.symm_ictx.win, base, true_size));
@@ -276,6 +279,9 @@ static void initialize_symm_heap(void)
                                                              OSHMPI_global.thread_level ==
                                                              SHMEM_THREAD_MULTIPLE ? 1 : 0);
     OSHMPI_ASSERT(OSHMPI_global.symm_heap_mspace != NULL);
+    /* The heap must not grow by memory that is not symmetric */
+    mspace_set_footprint_limit(OSHMPI_global.symm_heap_mspace,
+                               mspace_footprint(OSHMPI_global.symm_heap_mspace));
     OSHMPI_THREAD_INIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
 
     OSHMPI_CALLMPI(MPI_Win_lock_all(MPI_MODE_NOCHECK, OSHMPI_global.symm_heap_ictx.win));
-- 
2.43.0


From 2117f97795bb380778389b75e67088aceb940039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:38 +0000
Subject: [PATCH 20/32] fix: complete pending operations when a context is
 destroyed

---
 src/internal/ctx_impl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internal/ctx_impl.c b/src/internal/ctx_impl.c
index 812a798..92efcc1 100644
--- a/src/internal/ctx_impl.c
+++ b/src/internal/ctx_impl.c
@@ -8,6 +8,9 @@
 
 void OSHMPI_ctx_destroy(OSHMPI_ctx_t * ctx)
 {
+    /* Operations still pending on the context cannot be completed by the user afterwards */
+    OSHMPI_ctx_quiet((shmem_ctx_t) ctx);
+
     OSHMPIU_ATOMIC_FLAG_STORE(ctx->used_flag, 0);
 
     /* Do not free window.
-- 
2.43.0


From 5f72f2684672ed52fbe65d6215d3798e5f3eebdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:43 +0000
Subject: [PATCH 21/32] fix: signal the end of the progress thread before the
 condition can be destroyed

---
 src/internal/am_impl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/internal/am_impl.c b/src/internal/am_impl.c
index 08a4905..28a2cd2 100644
--- a/src/internal/am_impl.c
+++ b/src/internal/am_impl.c
@@ -77,8 +77,10 @@ static void *am_cb_async_progress(void *arg OSHMPI_ATTRIBUTE((unused)))
   terminate:
     OSHMPI_CALLPTHREAD(pthread_mutex_lock(&OSHMPI_am.async_mutex));
     OSHMPI_am.async_thread_done = 1;
-    OSHMPI_CALLPTHREAD(pthread_mutex_unlock(&OSHMPI_am.async_mutex));
+    /* Signal before unlock, because the main thread may destroy the condition variable
+     * as soon as it can observe async_thread_done. */
     OSHMPI_CALLPTHREAD(pthread_cond_signal(&OSHMPI_am.async_cond));
+    OSHMPI_CALLPTHREAD(pthread_mutex_unlock(&OSHMPI_am.async_mutex));
 
     return NULL;
 }
-- 
2.43.0


From 32ee1700b367a7cc75f07b3ff09d7a45fcc7dc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 22/32] fix: keep the flags of outstanding operations when
 threads issue concurrently

---
 src/internal/am_impl.h     | 7 ++-----
 src/internal/am_pre.h      | 8 ++++++++
 src/internal/amo_am_impl.h | 4 ++--
 src/internal/order_impl.h  | 5 ++++-
 src/internal/rma_am_impl.h | 4 ++--
 5 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/internal/am_impl.h b/src/internal/am_impl.h
index a27665a..b6da027 100644
--- a/src/internal/am_impl.h
+++ b/src/internal/am_impl.h
@@ -70,13 +70,10 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_am_flush(shmem_ctx_t ctx OSHMPI_ATTRIBUT
     OSHMPI_am_progress_mpi_waitall(nreqs, reqs, MPI_STATUS_IGNORE);
     OSHMPIU_free(reqs);
 
-    /* Reset all flags
-     * Threaded: the flag might be concurrently updated by another thread,
-     * however, the user must use additional thread sync to ensure a flush
-     * completes the specific AMO. */
+    /* Reset all flags */
     for (i = 0; i < PE_size; i++) {
         pe = PE_start + i * pe_stride;
-        OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+        OSHMPI_AM_CLEAR_OUTSTANDING_OP(pe);
     }
 }
 
diff --git a/src/internal/am_pre.h b/src/internal/am_pre.h
index f9e0536..d8f11ef 100644
--- a/src/internal/am_pre.h
+++ b/src/internal/am_pre.h
@@ -173,6 +173,14 @@ extern OSHMPI_am_global_t OSHMPI_am;
 #define OSHMPI_AM_PKT_NAME_MAXLEN 128
 typedef void (*OSHMPI_am_cb_t) (int origin_rank, OSHMPI_am_pkt_t * pkt);
 
+/* Clear the flag of outstanding AMs after completing those issued before.
+ * Threaded: keep the flag since another thread may have issued an AM meanwhile
+ * which the next flush has to complete. */
+#define OSHMPI_AM_CLEAR_OUTSTANDING_OP(pe) do {                              \
+    if (OSHMPI_global.thread_level != SHMEM_THREAD_MULTIPLE)                 \
+        OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);    \
+} while (0)
+
 #define OSHMPI_AM_PKT_TAG 2000
 #define OSHMPI_AM_TERMINATE_TAG 2001
 #define OSHMPI_AM_PKT_PTAG_START 2003
diff --git a/src/internal/amo_am_impl.h b/src/internal/amo_am_impl.h
index 25834a9..8912a95 100644
--- a/src/internal/amo_am_impl.h
+++ b/src/internal/amo_am_impl.h
@@ -45,7 +45,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_amo_am_cswap(OSHMPI_ictx_t * ictx,
 
     /* Reset flag since remote PE should have finished previous post
      * before handling this fetch. */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+    OSHMPI_AM_CLEAR_OUTSTANDING_OP(pe);
 }
 
 /* Issue a fetch (with op) operation. Blocking wait until return of old value. */
@@ -88,7 +88,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_amo_am_fetch(OSHMPI_ictx_t * ictx,
 
     /* Reset flag since remote PE should have finished previous post
      * before handling this fetch. */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+    OSHMPI_AM_CLEAR_OUTSTANDING_OP(pe);
 }
 
 /* Issue a post operation. Return immediately after sent AMO packet */
diff --git a/src/internal/order_impl.h b/src/internal/order_impl.h
index ffa1c1c..af2dad4 100644
--- a/src/internal/order_impl.h
+++ b/src/internal/order_impl.h
@@ -9,7 +9,10 @@
 #include "oshmpi_impl.h"
 
 #ifdef OSHMPI_ENABLE_OP_TRACKING
-#define CHECK_FLAG(flag) OSHMPIU_ATOMIC_FLAG_LOAD(flag)
+/* Threaded: always flush since the flag may be reset while another thread issues
+ * an operation or still waits for the completion. */
+#define CHECK_FLAG(flag) (OSHMPI_global.thread_level == SHMEM_THREAD_MULTIPLE || \
+                          OSHMPIU_ATOMIC_FLAG_LOAD(flag))
 #else
 #define CHECK_FLAG(flag) (1)
 #endif
diff --git a/src/internal/rma_am_impl.h b/src/internal/rma_am_impl.h
index 4089087..bea20a2 100644
--- a/src/internal/rma_am_impl.h
+++ b/src/internal/rma_am_impl.h
@@ -77,7 +77,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_get(OSHMPI_ictx_t * ictx,
 
     /* Reset flag since remote PE should have finished previous put
      * before handling this get. */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+    OSHMPI_AM_CLEAR_OUTSTANDING_OP(pe);
 }
 
 /* Issue a strided PUT operation. Return immediately after sent PUT packet (local complete) */
@@ -169,7 +169,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_iget(OSHMPI_ictx_t * ictx,
 
     /* Reset flag since remote PE should have finished previous put
      * before handling this get. */
-    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 0);
+    OSHMPI_AM_CLEAR_OUTSTANDING_OP(pe);
     OSHMPI_free_strided_dtype(mpi_type, &origin_type);
 }
 
-- 
2.43.0


From 5c8ac039ed55c19aabb3e2e6ba93fab540dc1036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 23/32] fix: publish spaces and their windows to concurrent
 flushes only while valid

---
 src/internal/space_impl.c | 59 +++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 18 deletions(-)

diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index 8fc6cad..05ebc7d 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -16,11 +16,15 @@
 
 static void space_ictx_create(void *base, MPI_Aint size, MPI_Info info, OSHMPI_ictx_t * ictx)
 {
+    MPI_Win win = MPI_WIN_NULL;
+
     OSHMPI_CALLMPI(MPI_Win_create(base, size, 1 /* disp_unit */ , info,
-                                  OSHMPI_global.team_world_comm, &ictx->win));
-    OSHMPI_CALLMPI(MPI_Win_lock_all(MPI_MODE_NOCHECK, ictx->win));
+                                  OSHMPI_global.team_world_comm, &win));
+    OSHMPI_CALLMPI(MPI_Win_lock_all(MPI_MODE_NOCHECK, win));
     OSHMPIU_ATOMIC_FLAG_STORE(ictx->outstanding_op, 0);
     OSHMPI_ICTX_SET_DISP_MODE(ictx, OSHMPI_RELATIVE_DISP);
+    /* Publish the window only when it is ready for concurrent flush */
+    ictx->win = win;
 }
 
 static void space_ictx_destroy(OSHMPI_ictx_t * ictx)
@@ -199,11 +203,6 @@ void OSHMPI_space_create(shmemx_space_config_t space_config, OSHMPI_space_t ** s
     OSHMPI_sobj_init_attr(&space->sobj_attr, space_config.memkind, base, size);
     OSHMPI_sobj_set_handle(&space->sobj_attr, OSHMPI_SOBJ_SPACE_HEAP, 0, 0);
 
-    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
-    LL_APPEND(OSHMPI_global.space_list.head, space);
-    OSHMPI_global.space_list.nspaces++;
-    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
-
     space->ctx_list = NULL;
     space->config = space_config;
 #ifndef OSHMPI_ENABLE_DYNAMIC_WIN
@@ -211,6 +210,12 @@ void OSHMPI_space_create(shmemx_space_config_t space_config, OSHMPI_space_t ** s
     OSHMPIU_ATOMIC_FLAG_STORE(space->default_ictx.outstanding_op, 0);
 #endif
 
+    /* Publish the initialized space, another thread may iterate over the list */
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
+    LL_APPEND(OSHMPI_global.space_list.head, space);
+    OSHMPI_global.space_list.nspaces++;
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
+
     char space_hints[64];
     space_hints_str(space->config.hints, space_hints, 64);
 
@@ -317,20 +322,25 @@ void OSHMPI_space_attach(OSHMPI_space_t * space)
     /* TODO: assume all processes have the same config */
     /* Create explicit-context windows */
     if (space->config.num_contexts > 0) {
-        space->ctx_list =
+        OSHMPI_ctx_t *ctx_list =
             (OSHMPI_ctx_t *) OSHMPIU_malloc(sizeof(OSHMPI_ctx_t) * space->config.num_contexts);
         int i;
         for (i = 0; i < space->config.num_contexts; i++) {
             space_ictx_create(space->sobj_attr.base, (MPI_Aint) space->sobj_attr.size,
-                              info, &space->ctx_list[i].ictx);
+                              info, &ctx_list[i].ictx);
 
             /* copy into context to avoid pointer dereference in RMA/AMO path */
-            space->ctx_list[i].sobj_attr = space->sobj_attr;
-            OSHMPIU_ATOMIC_FLAG_STORE(space->ctx_list[i].used_flag, 0);
+            ctx_list[i].sobj_attr = space->sobj_attr;
+            OSHMPIU_ATOMIC_FLAG_STORE(ctx_list[i].used_flag, 0);
 
             OSHMPI_DBGMSG("attach space %p, private ctx[%d]: new ictx.win 0x%" PRIx64 "\n",
-                          space, i, (uint64_t) space->ctx_list[i].ictx.win);
+                          space, i, (uint64_t) ctx_list[i].ictx.win);
         }
+
+        /* Publish the initialized contexts, another thread may iterate over them */
+        OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
+        space->ctx_list = ctx_list;
+        OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
     }
 
     OSHMPI_CALLMPI(MPI_Info_free(&info));
@@ -340,28 +350,41 @@ void OSHMPI_space_attach(OSHMPI_space_t * space)
 void OSHMPI_space_detach(OSHMPI_space_t * space)
 {
     int i;
+    OSHMPI_ctx_t *ctx_list;
+#ifndef OSHMPI_ENABLE_DYNAMIC_WIN
+    OSHMPI_ictx_t default_ictx;
+#endif
 
     /* Wait with AM progress until all PEs have arrived, because a PE which is late
      * may depend on our progress but the MPI calls below make none. */
     OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
 
+    /* Hide the windows first, another thread may iterate over them in order to flush */
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
+    ctx_list = space->ctx_list;
+    space->ctx_list = NULL;
+#ifndef OSHMPI_ENABLE_DYNAMIC_WIN
+    default_ictx = space->default_ictx;
+    space->default_ictx.win = MPI_WIN_NULL;
+#endif
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
+
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
     OSHMPI_CALLMPI(MPI_Win_detach(OSHMPI_global.symm_ictx.win, space->sobj_attr.base));
 #else
     /* Destroy internal window */
-    space_ictx_destroy(&space->default_ictx);
+    space_ictx_destroy(&default_ictx);
 #endif
 
     /* Space should have already be attached or no context is required at config */
-    OSHMPI_ASSERT((space->config.num_contexts == 0 || space->ctx_list));
+    OSHMPI_ASSERT((space->config.num_contexts == 0 || ctx_list));
 
     /* Destroy explicit-context windows */
     for (i = 0; i < space->config.num_contexts; i++) {
-        OSHMPI_ASSERT(OSHMPIU_ATOMIC_FLAG_LOAD(space->ctx_list[i].used_flag) == 0);
-        space_ictx_destroy(&space->ctx_list[i].ictx);
+        OSHMPI_ASSERT(OSHMPIU_ATOMIC_FLAG_LOAD(ctx_list[i].used_flag) == 0);
+        space_ictx_destroy(&ctx_list[i].ictx);
     }
-    OSHMPIU_free(space->ctx_list);
-    space->ctx_list = NULL;
+    OSHMPIU_free(ctx_list);
 
     OSHMPI_sobj_destroy_attr(&space->sobj_attr);
     OSHMPI_sobj_set_handle(&space->sobj_attr, OSHMPI_SOBJ_SPACE_HEAP, 0, 0);
-- 
2.43.0


From e936f8691809567e860783b3ad86ff9497b73c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:06 +0000
Subject: [PATCH 24/32] fix: make no AM progress if active messages are
 disabled

---
 src/internal/am_impl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/am_impl.c b/src/internal/am_impl.c
index 28a2cd2..ab00196 100644
--- a/src/internal/am_impl.c
+++ b/src/internal/am_impl.c
@@ -288,6 +288,10 @@ void OSHMPI_am_finalize(void)
 
 void OSHMPI_am_cb_progress(void)
 {
+    /* AM is not used if direct AMO is enabled and direct RMA is set at configure. */
+    if (OSHMPI_ENABLE_DIRECT_AMO_RUNTIME && OSHMPI_ENABLE_DIRECT_RMA_CONFIG)
+        return;
+
     /* Make manual progress only when async thread is disabled */
     if (OSHMPI_ENABLE_AM_ASYNC_THREAD_RUNTIME)
         return;
-- 
2.43.0


From 8ce7efc525c5e48f1e80d4864eda577ff92a8beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:25 +0000
Subject: [PATCH 25/32] fix: free the block when shmem_realloc is given a zero
 size

---
 src/internal/mem_impl.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/internal/mem_impl.c b/src/internal/mem_impl.c
index c0170f7..1bb0e31 100644
--- a/src/internal/mem_impl.c
+++ b/src/internal/mem_impl.c
@@ -52,8 +52,12 @@ void *OSHMPI_realloc(void *ptr, size_t size)
 {
     void *rptr = NULL;
 
-    if (size == 0 && ptr == NULL)
-        return ptr;
+    /* A zero size frees the existing allocation, if any */
+    if (size == 0) {
+        if (ptr != NULL)
+            OSHMPI_free(ptr);
+        return NULL;
+    }
 
     /* Other PEs may still access the existing allocation until all have arrived */
     if (ptr != NULL)
-- 
2.43.0


From 238bbab4f58841c13e083763b83542cd2c46ea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:25 +0000
Subject: [PATCH 26/32] fix: perform no action for shmem_free(NULL) and
 zero-size shmem_align

---
 src/internal/mem_impl.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/internal/mem_impl.c b/src/internal/mem_impl.c
index 1bb0e31..17e461d 100644
--- a/src/internal/mem_impl.c
+++ b/src/internal/mem_impl.c
@@ -26,6 +26,9 @@ void *OSHMPI_malloc(size_t size)
 
 void OSHMPI_free(void *ptr)
 {
+    if (ptr == NULL)
+        return;
+
     OSHMPI_DBGMSG("ptr %p\n", ptr);
     OSHMPI_barrier_all();
 
@@ -76,6 +79,9 @@ void *OSHMPI_align(size_t alignment, size_t size)
 {
     void *ptr = NULL;
 
+    if (size == 0)
+        return ptr;
+
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);
     ptr = mspace_memalign(OSHMPI_global.symm_heap_mspace, alignment, size);
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
-- 
2.43.0


From e31a17cc83697ac3ee49b0a5b361ac067cc5220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:25 +0000
Subject: [PATCH 27/32] fix: use a distinct tag per active set when its
 communicator is created

Two threads may be inside collective calls on different active sets with the
same PE_start. Both then passed the same tag to MPI_Comm_create_group on one
communicator, which MPI does not allow for concurrent calls.
---
 src/internal/coll_activeset_impl.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index 62c76fa..84b8da3 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -105,20 +105,29 @@ OSHMPI_STATIC_INLINE_PREFIX void coll_acquire_comm(int PE_start, int logPE_strid
     OSHMPI_CALLMPI(MPI_Group_incl
                    (OSHMPI_global.team_world_group, PE_size, pe_list, &strided_group));
 
+    /* Threads may create the communicators of different active sets at the same time, also
+     * with the same first PE. Thus, the active sets need different tags. */
+    int flag = 0, *tag_ub = NULL;
+    OSHMPI_CALLMPI(MPI_Comm_get_attr(OSHMPI_global.team_world_comm, MPI_TAG_UB, &tag_ub, &flag));
+    OSHMPI_ASSERT(flag);
+    const uint64_t n_pes = OSHMPI_global.team_world_n_pes;
+    const int tag = (int) ((((uint64_t) logPE_stride * n_pes + PE_start) * n_pes + (PE_size - 1))
+                           % ((uint64_t) * tag_ub + 1));
+
     /* Wait with AM progress until all PEs of the active set have arrived, because a
      * PE which is late may depend on our progress but the MPI call below makes none. */
     int myidx = (OSHMPI_global.team_world_my_pe - PE_start) / pe_stride;
     for (int dist = 1; dist < PE_size; dist <<= 1) {
         MPI_Request reqs[2];
         OSHMPI_CALLMPI(MPI_Irecv(NULL, 0, MPI_BYTE, pe_list[(myidx - dist + PE_size) % PE_size],
-                                 PE_start, OSHMPI_global.team_world_comm, &reqs[0]));
+                                 tag, OSHMPI_global.team_world_comm, &reqs[0]));
         OSHMPI_CALLMPI(MPI_Isend(NULL, 0, MPI_BYTE, pe_list[(myidx + dist) % PE_size],
-                                 PE_start, OSHMPI_global.team_world_comm, &reqs[1]));
+                                 tag, OSHMPI_global.team_world_comm, &reqs[1]));
         OSHMPI_am_progress_mpi_waitall(2, reqs, MPI_STATUSES_IGNORE);
     }
     /* Only collective on the strided_group. */
     OSHMPI_CALLMPI(MPI_Comm_create_group
-                   (OSHMPI_global.team_world_comm, strided_group, PE_start /* tag */ , comm));
+                   (OSHMPI_global.team_world_comm, strided_group, tag, comm));
     OSHMPIU_free(pe_list);
 
     coll_set_comm_cache(PE_start, logPE_stride, PE_size, *comm, strided_group);
-- 
2.43.0


From 27214c5cf630b6fc43fb9288ba2674a458da9adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:58 +0000
Subject: [PATCH 28/32] fix: locks in memory with different addresses on the
 PEs

The displacement of the next field of a lock was computed from the address on
the root PE and used for every other PE.  With a dynamic window, where it is
an absolute address, locks in a symmetric heap or space whose address differs
between PEs accessed wrong memory.
---
 src/internal/lock_impl.h | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/internal/lock_impl.h b/src/internal/lock_impl.h
index a332ebf..0bf84ce 100644
--- a/src/internal/lock_impl.h
+++ b/src/internal/lock_impl.h
@@ -24,6 +24,19 @@ typedef struct OSHMPI_lock_s {
                                  * other bits: next pe who is waiting on me to release this lock */
 } OSHMPI_lock_t;
 
+/* The displacement of the next field may differ on every PE (e.g., absolute addresses in a dynamic window) */
+OSHMPI_STATIC_INLINE_PREFIX MPI_Aint OSHMPI_lock_next_disp(OSHMPI_sobj_attr_t * sobj_attr,
+                                                           OSHMPI_ictx_t * ictx,
+                                                           OSHMPI_lock_t * lock, int pe)
+{
+    MPI_Aint disp = -1;
+
+    OSHMPI_sobj_trans_vaddr_to_disp(sobj_attr, (const void *) &lock->next, pe,
+                                    OSHMPI_ICTX_DISP_MODE(ictx), &disp);
+    OSHMPI_ASSERT(disp >= 0);
+    return disp;
+}
+
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_set_lock(long *lockp)
 {
     int myid = OSHMPI_global.team_world_my_pe + 1;
@@ -46,7 +59,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_set_lock(long *lockp)
                                     OSHMPI_ICTX_DISP_MODE(ictx), &lock_last_disp);
     OSHMPI_ASSERT(lock_last_disp >= 0);
 
-    lock_next_disp = lock_last_disp + sizeof(int);
+    lock_next_disp = OSHMPI_lock_next_disp(sobj_attr, ictx, lock, OSHMPI_global.team_world_my_pe);
 
     /* Reset my local bits. No one accesses to my next bits now. */
     lock->next = 0;
@@ -61,7 +74,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_set_lock(long *lockp)
 
     /* If I am not the last, notify the previous last about me, and wait for release */
     if (curid != zero) {
-        OSHMPI_CALLMPI(MPI_Accumulate(&next, 1, MPI_UNSIGNED, curid - 1, lock_next_disp,
+        OSHMPI_CALLMPI(MPI_Accumulate(&next, 1, MPI_UNSIGNED, curid - 1,
+                                      OSHMPI_lock_next_disp(sobj_attr, ictx, lock, curid - 1),
                                       1, MPI_UNSIGNED, MPI_BOR, ictx->win));
         OSHMPI_CALLMPI(MPI_Win_flush(curid - 1, ictx->win));
 
@@ -105,7 +119,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_clear_lock(long *lockp)
                                     OSHMPI_ICTX_DISP_MODE(ictx), &lock_last_disp);
     OSHMPI_ASSERT(lock_last_disp >= 0);
 
-    lock_next_disp = lock_last_disp + sizeof(int);
+    lock_next_disp = OSHMPI_lock_next_disp(sobj_attr, ictx, lock, OSHMPI_global.team_world_my_pe);
 
     /* Release the lock in root process if I am the last one holding the lock */
     OSHMPI_CALLMPI(MPI_Compare_and_swap
@@ -132,7 +146,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_clear_lock(long *lockp)
         OSHMPI_CALLMPI(MPI_Win_sync(ictx->win));
 
         /* Set next PE's signal bit */
-        OSHMPI_CALLMPI(MPI_Accumulate(&signal, 1, MPI_UNSIGNED, nextid - 1, lock_next_disp, 1,
+        OSHMPI_CALLMPI(MPI_Accumulate(&signal, 1, MPI_UNSIGNED, nextid - 1,
+                                      OSHMPI_lock_next_disp(sobj_attr, ictx, lock, nextid - 1), 1,
                                       MPI_UNSIGNED, MPI_BOR, ictx->win));
         OSHMPI_CALLMPI(MPI_Win_flush(nextid - 1, ictx->win));
         OSHMPI_DBGMSG("pass lock %p to %d\n", lockp, nextid - 1);
-- 
2.43.0


From 0b978ecbb399fb69c098b863b9971d4f02693307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:51 +0000
Subject: [PATCH 29/32] fix: transfer more than INT_MAX elements with put and
 get

The number of elements was passed to MPI as an int, so a larger transfer
failed, or moved only the elements left after the number had wrapped. The
active message path additionally counted the data in bytes at the target.
Issue such a transfer in several pieces.
---
 src/internal/rma_am_impl.h | 62 ++++++++++++++++++++++++++++++++------
 src/internal/rma_impl.h    | 60 +++++++++++++++++++++++++++---------
 2 files changed, 99 insertions(+), 23 deletions(-)

diff --git a/src/internal/rma_am_impl.h b/src/internal/rma_am_impl.h
index bea20a2..7d4b021 100644
--- a/src/internal/rma_am_impl.h
+++ b/src/internal/rma_am_impl.h
@@ -7,14 +7,16 @@
 #ifndef INTERNAL_RMA_AM_IMPL_H
 #define INTERNAL_RMA_AM_IMPL_H
 
+#include <limits.h>
+
 #include "oshmpi_impl.h"
 
-/* Issue a PUT operation. Return immediately after sent PUT packet (local complete) */
-OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_put(OSHMPI_ictx_t * ictx,
-                                                   MPI_Datatype mpi_type, size_t typesz,
-                                                   const void *origin_addr, void *target_addr,
-                                                   size_t nelems, int pe,
-                                                   OSHMPI_sobj_attr_t * sobj_attr)
+/* Issue one piece of a PUT operation. The data is at most INT_MAX bytes. */
+OSHMPI_STATIC_INLINE_PREFIX void rma_am_put_impl(OSHMPI_ictx_t * ictx,
+                                                 MPI_Datatype mpi_type, size_t typesz,
+                                                 const void *origin_addr, void *target_addr,
+                                                 size_t nelems, int pe,
+                                                 OSHMPI_sobj_attr_t * sobj_attr)
 {
     OSHMPI_am_pkt_t pkt;
     OSHMPI_am_put_pkt_t *put_pkt = &pkt.put;
@@ -44,12 +46,33 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_put(OSHMPI_ictx_t * ictx,
     OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 1);
 }
 
-/* Issue a GET operation. Return after receiving return value. */
-OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_get(OSHMPI_ictx_t * ictx,
+/* Issue a PUT operation. Return immediately after sent PUT packet (local complete) */
+OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_put(OSHMPI_ictx_t * ictx,
                                                    MPI_Datatype mpi_type, size_t typesz,
-                                                   void *origin_addr, const void *target_addr,
+                                                   const void *origin_addr, void *target_addr,
                                                    size_t nelems, int pe,
                                                    OSHMPI_sobj_attr_t * sobj_attr)
+{
+    /* MPI counts are int, and the target PE handles the data as bytes. Thus, issue
+     * larger data in several pieces. */
+    const size_t max_nelems = INT_MAX / typesz;
+
+    while (nelems > max_nelems) {
+        rma_am_put_impl(ictx, mpi_type, typesz, origin_addr, target_addr, max_nelems, pe,
+                        sobj_attr);
+        origin_addr = (const char *) origin_addr + typesz * max_nelems;
+        target_addr = (char *) target_addr + typesz * max_nelems;
+        nelems -= max_nelems;
+    }
+    rma_am_put_impl(ictx, mpi_type, typesz, origin_addr, target_addr, nelems, pe, sobj_attr);
+}
+
+/* Issue one piece of a GET operation. The data is at most INT_MAX bytes. */
+OSHMPI_STATIC_INLINE_PREFIX void rma_am_get_impl(OSHMPI_ictx_t * ictx,
+                                                 MPI_Datatype mpi_type, size_t typesz,
+                                                 void *origin_addr, const void *target_addr,
+                                                 size_t nelems, int pe,
+                                                 OSHMPI_sobj_attr_t * sobj_attr)
 {
     OSHMPI_am_pkt_t pkt;
     OSHMPI_am_get_pkt_t *get_pkt = &pkt.get;
@@ -80,6 +103,27 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_get(OSHMPI_ictx_t * ictx,
     OSHMPI_AM_CLEAR_OUTSTANDING_OP(pe);
 }
 
+/* Issue a GET operation. Return after receiving return value. */
+OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_get(OSHMPI_ictx_t * ictx,
+                                                   MPI_Datatype mpi_type, size_t typesz,
+                                                   void *origin_addr, const void *target_addr,
+                                                   size_t nelems, int pe,
+                                                   OSHMPI_sobj_attr_t * sobj_attr)
+{
+    /* MPI counts are int, and the target PE handles the data as bytes. Thus, issue
+     * larger data in several pieces. */
+    const size_t max_nelems = INT_MAX / typesz;
+
+    while (nelems > max_nelems) {
+        rma_am_get_impl(ictx, mpi_type, typesz, origin_addr, target_addr, max_nelems, pe,
+                        sobj_attr);
+        origin_addr = (char *) origin_addr + typesz * max_nelems;
+        target_addr = (const char *) target_addr + typesz * max_nelems;
+        nelems -= max_nelems;
+    }
+    rma_am_get_impl(ictx, mpi_type, typesz, origin_addr, target_addr, nelems, pe, sobj_attr);
+}
+
 /* Issue a strided PUT operation. Return immediately after sent PUT packet (local complete) */
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_rma_am_iput(OSHMPI_ictx_t * ictx,
                                                     MPI_Datatype mpi_type,
diff --git a/src/internal/rma_impl.h b/src/internal/rma_impl.h
index 09463a6..f025e9b 100644
--- a/src/internal/rma_impl.h
+++ b/src/internal/rma_impl.h
@@ -7,6 +7,8 @@
 #ifndef INTERNAL_RMA_IMPL_H
 #define INTERNAL_RMA_IMPL_H
 
+#include <limits.h>
+
 #include "oshmpi_impl.h"
 #include "rma_am_impl.h"
 
@@ -19,8 +21,6 @@ OSHMPI_STATIC_INLINE_PREFIX void ctx_put_nbi_impl(OSHMPI_ictx_t * ictx,
 {
     MPI_Aint target_disp = -1;
 
-    /* TODO: check non-int inputs exceeds int limit */
-
     OSHMPI_sobj_trans_vaddr_to_disp(sobj_attr, (const void *) target_addr, pe,
                                     OSHMPI_ICTX_DISP_MODE(ictx), &target_disp);
     OSHMPI_ASSERT(target_disp >= 0);
@@ -40,8 +40,6 @@ OSHMPI_STATIC_INLINE_PREFIX void ctx_get_nbi_impl(OSHMPI_ictx_t * ictx,
 {
     MPI_Aint target_disp = -1;
 
-    /* TODO: check non-int inputs exceeds int limit */
-
     OSHMPI_sobj_trans_vaddr_to_disp(sobj_attr, target_addr, pe,
                                     OSHMPI_ICTX_DISP_MODE(ictx), &target_disp);
     OSHMPI_ASSERT(target_disp >= 0);
@@ -52,6 +50,42 @@ OSHMPI_STATIC_INLINE_PREFIX void ctx_get_nbi_impl(OSHMPI_ictx_t * ictx,
     OSHMPI_SET_OUTSTANDING_OP(ictx, completion);        /* GET can be outstanding or completed */
 }
 
+/* Contiguous PUT. MPI counts are int, thus more than INT_MAX elements are issued in several pieces. */
+OSHMPI_STATIC_INLINE_PREFIX void ctx_contig_put_nbi_impl(OSHMPI_ictx_t * ictx,
+                                                         MPI_Datatype mpi_type, size_t typesz,
+                                                         const void *origin_addr, void *target_addr,
+                                                         size_t nelems, int pe,
+                                                         OSHMPI_sobj_attr_t * sobj_attr)
+{
+    while (nelems > INT_MAX) {
+        ctx_put_nbi_impl(ictx, mpi_type, mpi_type, origin_addr, target_addr,
+                         INT_MAX, INT_MAX, pe, sobj_attr);
+        origin_addr = (const char *) origin_addr + typesz * INT_MAX;
+        target_addr = (char *) target_addr + typesz * INT_MAX;
+        nelems -= INT_MAX;
+    }
+    ctx_put_nbi_impl(ictx, mpi_type, mpi_type, origin_addr, target_addr, nelems, nelems, pe,
+                     sobj_attr);
+}
+
+/* Contiguous GET. MPI counts are int, thus more than INT_MAX elements are issued in several pieces. */
+OSHMPI_STATIC_INLINE_PREFIX void ctx_contig_get_nbi_impl(OSHMPI_ictx_t * ictx,
+                                                         MPI_Datatype mpi_type, size_t typesz,
+                                                         void *origin_addr, const void *target_addr,
+                                                         size_t nelems, int pe, int completion,
+                                                         OSHMPI_sobj_attr_t * sobj_attr)
+{
+    while (nelems > INT_MAX) {
+        ctx_get_nbi_impl(ictx, mpi_type, mpi_type, origin_addr, target_addr,
+                         INT_MAX, INT_MAX, pe, completion, sobj_attr);
+        origin_addr = (char *) origin_addr + typesz * INT_MAX;
+        target_addr = (const char *) target_addr + typesz * INT_MAX;
+        nelems -= INT_MAX;
+    }
+    ctx_get_nbi_impl(ictx, mpi_type, mpi_type, origin_addr, target_addr, nelems, nelems, pe,
+                     completion, sobj_attr);
+}
+
 OSHMPI_STATIC_INLINE_PREFIX void ctx_iput_nbi_impl(OSHMPI_ictx_t * ictx,
                                                    MPI_Datatype mpi_type, const void *origin_addr,
                                                    void *target_addr, ptrdiff_t target_st,
@@ -119,8 +153,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_put_nbi(shmem_ctx_t ctx,
     OSHMPI_ASSERT(sobj_attr && ictx);
 
     if (OSHMPI_ENABLE_DIRECT_RMA_RUNTIME(origin_addr, sobj_attr->memkind, OSHMPI_PUT))
-        ctx_put_nbi_impl(ictx, mpi_type, mpi_type, origin_addr, target_addr, nelems,
-                         nelems, pe, sobj_attr);
+        ctx_contig_put_nbi_impl(ictx, mpi_type, typesz, origin_addr, target_addr, nelems, pe,
+                                sobj_attr);
     else        /* TODO: nonblocking version of AM PUT */
         OSHMPI_rma_am_put(ictx, mpi_type, typesz, origin_addr, target_addr, nelems, pe, sobj_attr);
 }
@@ -140,8 +174,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_put(shmem_ctx_t ctx,
     OSHMPI_ASSERT(sobj_attr && ictx);
 
     if (OSHMPI_ENABLE_DIRECT_RMA_RUNTIME(origin_addr, sobj_attr->memkind, OSHMPI_PUT)) {
-        ctx_put_nbi_impl(ictx, mpi_type, mpi_type, origin_addr, target_addr, nelems,
-                         nelems, pe, sobj_attr);
+        ctx_contig_put_nbi_impl(ictx, mpi_type, typesz, origin_addr, target_addr, nelems, pe,
+                                sobj_attr);
         ctx_local_complete_impl(pe, ictx);
     } else
         OSHMPI_rma_am_put(ictx, mpi_type, typesz, origin_addr, target_addr, nelems, pe, sobj_attr);
@@ -187,9 +221,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_get_nbi(shmem_ctx_t ctx,
     OSHMPI_ASSERT(sobj_attr && ictx);
 
     if (OSHMPI_ENABLE_DIRECT_RMA_RUNTIME(origin_addr, sobj_attr->memkind, OSHMPI_GET)) {
-        /* TODO: check non-int inputs exceeds int limit */
-        ctx_get_nbi_impl(ictx, mpi_type, mpi_type, origin_addr, target_addr,
-                         nelems, nelems, pe, OSHMPI_OP_OUTSTANDING, sobj_attr);
+        ctx_contig_get_nbi_impl(ictx, mpi_type, typesz, origin_addr, target_addr, nelems, pe,
+                                OSHMPI_OP_OUTSTANDING, sobj_attr);
     } else      /* TODO: nonblocking version of AM GET */
         OSHMPI_rma_am_get(ictx, mpi_type, typesz, origin_addr, target_addr, nelems, pe, sobj_attr);
 }
@@ -209,9 +242,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_get(shmem_ctx_t ctx,
     OSHMPI_ASSERT(sobj_attr && ictx);
 
     if (OSHMPI_ENABLE_DIRECT_RMA_RUNTIME(origin_addr, sobj_attr->memkind, OSHMPI_GET)) {
-        /* TODO: check non-int inputs exceeds int limit */
-        ctx_get_nbi_impl(ictx, mpi_type, mpi_type, origin_addr, target_addr,
-                         nelems, nelems, pe, OSHMPI_OP_COMPLETED, sobj_attr);
+        ctx_contig_get_nbi_impl(ictx, mpi_type, typesz, origin_addr, target_addr, nelems, pe,
+                                OSHMPI_OP_COMPLETED, sobj_attr);
         ctx_local_complete_impl(pe, ictx);
     } else
         OSHMPI_rma_am_get(ictx, mpi_type, typesz, origin_addr, target_addr, nelems, pe, sobj_attr);
-- 
2.43.0


From 90aa3b53bd54b5eaa4e95398811f288396be048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:07 +0000
Subject: [PATCH 30/32] fix: strides and element counts beyond INT_MAX in
 strided put and get

Both were passed to MPI as an int. Describe the stride in bytes and issue
more than INT_MAX elements in several pieces.
---
 src/internal/rma_impl.h     | 82 +++++++++++++++++++++++++++++--------
 src/internal/strided_impl.h |  8 ++--
 2 files changed, 68 insertions(+), 22 deletions(-)

diff --git a/src/internal/rma_impl.h b/src/internal/rma_impl.h
index f025e9b..2bdeabf 100644
--- a/src/internal/rma_impl.h
+++ b/src/internal/rma_impl.h
@@ -181,19 +181,17 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_put(shmem_ctx_t ctx,
         OSHMPI_rma_am_put(ictx, mpi_type, typesz, origin_addr, target_addr, nelems, pe, sobj_attr);
 }
 
-OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_iput(shmem_ctx_t ctx,
-                                                 MPI_Datatype mpi_type,
-                                                 OSHMPI_am_mpi_datatype_index_t mpi_type_idx,
-                                                 const void *origin_addr, void *target_addr,
-                                                 ptrdiff_t target_st, ptrdiff_t origin_st,
-                                                 size_t nelems, int pe)
+/* Issue one piece of a strided PUT. */
+OSHMPI_STATIC_INLINE_PREFIX void ctx_iput_impl(shmem_ctx_t ctx,
+                                               MPI_Datatype mpi_type,
+                                               OSHMPI_am_mpi_datatype_index_t mpi_type_idx,
+                                               const void *origin_addr, void *target_addr,
+                                               ptrdiff_t target_st, ptrdiff_t origin_st,
+                                               size_t nelems, int pe)
 {
     OSHMPI_ictx_t *ictx = NULL;
     OSHMPI_sobj_attr_t *sobj_attr = NULL;
 
-    if (nelems == 0)
-        return;
-
     OSHMPI_sobj_query_attr_ictx(ctx, (const void *) target_addr, pe, &sobj_attr, &ictx);
     OSHMPI_ASSERT(sobj_attr && ictx);
 
@@ -206,6 +204,31 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_iput(shmem_ctx_t ctx,
                            origin_st, target_st, nelems, pe, sobj_attr);
 }
 
+OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_iput(shmem_ctx_t ctx,
+                                                 MPI_Datatype mpi_type,
+                                                 OSHMPI_am_mpi_datatype_index_t mpi_type_idx,
+                                                 const void *origin_addr, void *target_addr,
+                                                 ptrdiff_t target_st, ptrdiff_t origin_st,
+                                                 size_t nelems, int pe)
+{
+    if (nelems == 0)
+        return;
+
+    /* MPI counts are int, thus more than INT_MAX elements are issued in several pieces. */
+    while (nelems > INT_MAX) {
+        MPI_Aint lb, extent;
+
+        OSHMPI_CALLMPI(MPI_Type_get_extent(mpi_type, &lb, &extent));
+        ctx_iput_impl(ctx, mpi_type, mpi_type_idx, origin_addr, target_addr, target_st, origin_st,
+                      INT_MAX, pe);
+        origin_addr = (const char *) origin_addr + origin_st * extent * INT_MAX;
+        target_addr = (char *) target_addr + target_st * extent * INT_MAX;
+        nelems -= INT_MAX;
+    }
+    ctx_iput_impl(ctx, mpi_type, mpi_type_idx, origin_addr, target_addr, target_st, origin_st,
+                  nelems, pe);
+}
+
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_get_nbi(shmem_ctx_t ctx,
                                                     MPI_Datatype mpi_type, size_t typesz,
                                                     void *origin_addr, const void *target_addr,
@@ -249,19 +272,17 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_get(shmem_ctx_t ctx,
         OSHMPI_rma_am_get(ictx, mpi_type, typesz, origin_addr, target_addr, nelems, pe, sobj_attr);
 }
 
-OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_iget(shmem_ctx_t ctx,
-                                                 MPI_Datatype mpi_type,
-                                                 OSHMPI_am_mpi_datatype_index_t mpi_type_idx,
-                                                 void *origin_addr, const void *target_addr,
-                                                 ptrdiff_t origin_st, ptrdiff_t target_st,
-                                                 size_t nelems, int pe)
+/* Issue one piece of a strided GET. */
+OSHMPI_STATIC_INLINE_PREFIX void ctx_iget_impl(shmem_ctx_t ctx,
+                                               MPI_Datatype mpi_type,
+                                               OSHMPI_am_mpi_datatype_index_t mpi_type_idx,
+                                               void *origin_addr, const void *target_addr,
+                                               ptrdiff_t origin_st, ptrdiff_t target_st,
+                                               size_t nelems, int pe)
 {
     OSHMPI_ictx_t *ictx = NULL;
     OSHMPI_sobj_attr_t *sobj_attr = NULL;
 
-    if (nelems == 0)
-        return;
-
     OSHMPI_sobj_query_attr_ictx(ctx, target_addr, pe, &sobj_attr, &ictx);
     OSHMPI_ASSERT(sobj_attr && ictx);
 
@@ -274,4 +295,29 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_iget(shmem_ctx_t ctx,
                            origin_st, target_st, nelems, pe, sobj_attr);
 }
 
+OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_iget(shmem_ctx_t ctx,
+                                                 MPI_Datatype mpi_type,
+                                                 OSHMPI_am_mpi_datatype_index_t mpi_type_idx,
+                                                 void *origin_addr, const void *target_addr,
+                                                 ptrdiff_t origin_st, ptrdiff_t target_st,
+                                                 size_t nelems, int pe)
+{
+    if (nelems == 0)
+        return;
+
+    /* MPI counts are int, thus more than INT_MAX elements are issued in several pieces. */
+    while (nelems > INT_MAX) {
+        MPI_Aint lb, extent;
+
+        OSHMPI_CALLMPI(MPI_Type_get_extent(mpi_type, &lb, &extent));
+        ctx_iget_impl(ctx, mpi_type, mpi_type_idx, origin_addr, target_addr, origin_st, target_st,
+                      INT_MAX, pe);
+        origin_addr = (char *) origin_addr + origin_st * extent * INT_MAX;
+        target_addr = (const char *) target_addr + target_st * extent * INT_MAX;
+        nelems -= INT_MAX;
+    }
+    ctx_iget_impl(ctx, mpi_type, mpi_type_idx, origin_addr, target_addr, origin_st, target_st,
+                  nelems, pe);
+}
+
 #endif /* INTERNAL_RMA_IMPL_H */
diff --git a/src/internal/strided_impl.h b/src/internal/strided_impl.h
index 3dc4926..16dcb93 100644
--- a/src/internal/strided_impl.h
+++ b/src/internal/strided_impl.h
@@ -115,8 +115,6 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_create_strided_dtype(size_t nelems, ptrd
                                                              size_t * strided_cnt,
                                                              MPI_Datatype * strided_type)
 {
-    /* TODO: check non-int inputs exceeds int limit */
-
     /* Fast path: contig */
     if (stride == 1) {
         *strided_type = mpi_type;
@@ -143,7 +141,10 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_create_strided_dtype(size_t nelems, ptrd
     MPI_Aint lb, extent;
     int typesize;
 
-    OSHMPI_CALLMPI(MPI_Type_vector((int) nelems, 1, (int) stride, mpi_type, &vtype));
+    /* Give the stride in bytes, because it may not fit into the int of a vector type */
+    OSHMPI_CALLMPI(MPI_Type_get_extent(mpi_type, &lb, &extent));
+    OSHMPI_CALLMPI(MPI_Type_create_hvector((int) nelems, 1, (MPI_Aint) stride * extent, mpi_type,
+                                           &vtype));
 
     /* Vector does not count stride after last chunk, thus we need to resize to
      * cover it when multiple elements with the stride_datatype may be used (i.e., alltoalls).
@@ -157,7 +158,6 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_create_strided_dtype(size_t nelems, ptrd
         else if (mpi_type == OSHMPI_MPI_COLL64_T)
             elem_bytes = 8;
         else {
-            OSHMPI_CALLMPI(MPI_Type_get_extent(mpi_type, &lb, &extent));
             OSHMPI_ASSERT(lb == 0);
             OSHMPI_CALLMPI(MPI_Type_size(mpi_type, &typesize));
             OSHMPI_ASSERT(extent == typesize);
-- 
2.43.0


From b5f18b8caada9b9fd23ee7bbee285fc57254b324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:05 +0000
Subject: [PATCH 31/32] fix: broadcast, collect and reduce more than INT_MAX
 elements

---
 src/internal/coll_activeset_impl.h | 31 +++++++----
 src/internal/coll_impl.h           | 86 ++++++++++++++++++++++++++----
 2 files changed, 98 insertions(+), 19 deletions(-)

diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index 84b8da3..83c0016 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -183,8 +183,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_broadcast(void *dest, const void *source
 
     /* PE_root is the ordinal of the root in the active set, i.e., its rank in comm */
     OSHMPI_CALLMPI(MPI_Comm_rank(comm, &my_rank));
-    OSHMPI_am_progress_mpi_bcast(PE_root == my_rank ? (void *) source : dest,
-                                 nelems, mpi_type, PE_root, comm);
+    coll_bcast_impl(PE_root == my_rank ? (void *) source : dest, nelems, mpi_type, PE_root, comm);
 }
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_collect(void *dest, const void *source, size_t nelems,
@@ -193,6 +192,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_collect(void *dest, const void *source,
 {
     MPI_Comm comm = MPI_COMM_NULL;
     int *rcounts, *rdispls;
+    size_t *all_nelems, total_nelems = 0;
     unsigned int same_nelems = 0;
 
     coll_acquire_comm(PE_start, logPE_stride, PE_size, &comm);
@@ -204,21 +204,29 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_collect(void *dest, const void *source,
     rdispls = OSHMPIU_malloc(PE_size * sizeof(int));
     OSHMPI_ASSERT(rdispls);
 
-    OSHMPI_am_progress_mpi_allgather(&nelems, 1, MPI_INT, rcounts, 1, MPI_INT, comm);
+    all_nelems = OSHMPIU_malloc(PE_size * sizeof(size_t));
+    OSHMPI_ASSERT(all_nelems);
 
-    rdispls[0] = 0;
-    same_nelems = (nelems == rcounts[0]) ? 1 : 0;
-    for (int i = 1; i < PE_size; i++) {
-        rdispls[i] = rdispls[i - 1] + rcounts[i - 1];
-        same_nelems &= (nelems == rcounts[i]);
+    OSHMPI_am_progress_mpi_allgather(&nelems, sizeof(size_t), MPI_BYTE, all_nelems,
+                                     sizeof(size_t), MPI_BYTE, comm);
+
+    same_nelems = 1;
+    for (int i = 0; i < PE_size; i++) {
+        rcounts[i] = (int) all_nelems[i];
+        rdispls[i] = (int) total_nelems;
+        total_nelems += all_nelems[i];
+        same_nelems &= (nelems == all_nelems[i]);
     }
 
-    if (same_nelems)    /* call faster allgather if same nelems on all PEs */
+    if (total_nelems > INT_MAX)
+        coll_collect_large_impl(dest, source, all_nelems, mpi_type, comm);
+    else if (same_nelems)    /* call faster allgather if same nelems on all PEs */
         OSHMPI_am_progress_mpi_allgather(source, nelems, mpi_type, dest, nelems, mpi_type, comm);
     else
         OSHMPI_am_progress_mpi_allgatherv(source, nelems, mpi_type, dest, rcounts, rdispls,
                                           mpi_type, comm);
 
+    OSHMPIU_free(all_nelems);
     OSHMPIU_free(rdispls);
     OSHMPIU_free(rcounts);
 }
@@ -229,6 +237,11 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_fcollect(void *dest, const void *source,
 {
     MPI_Comm comm = MPI_COMM_NULL;
 
+    if (nelems > INT_MAX) {     /* collect handles any number of elements */
+        OSHMPI_collect(dest, source, nelems, mpi_type, PE_start, logPE_stride, PE_size);
+        return;
+    }
+
     coll_acquire_comm(PE_start, logPE_stride, PE_size, &comm);
 
     OSHMPI_am_progress_mpi_allgather(source, nelems, mpi_type, dest, nelems, mpi_type, comm);
diff --git a/src/internal/coll_impl.h b/src/internal/coll_impl.h
index b634b13..6a3246a 100644
--- a/src/internal/coll_impl.h
+++ b/src/internal/coll_impl.h
@@ -6,6 +6,8 @@
 #ifndef INTERNAL_COLL_IMPL_H
 #define INTERNAL_COLL_IMPL_H
 
+#include <limits.h>
+
 /* Block until all PEs arrive at the barrier and all local updates
  * and remote memory updates on the default context are completed. */
 #include "oshmpi_util.h"
@@ -49,6 +51,45 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync_team(OSHMPI_team_t * team)
     OSHMPI_am_progress_mpi_barrier(team->comm);
 }
 
+/* Broadcast any number of elements. MPI counts are int. */
+OSHMPI_STATIC_INLINE_PREFIX void coll_bcast_impl(void *buffer, size_t nelems,
+                                                 MPI_Datatype mpi_type, int root, MPI_Comm comm)
+{
+    MPI_Aint lb, extent;
+
+    while (nelems > INT_MAX) {
+        OSHMPI_CALLMPI(MPI_Type_get_extent(mpi_type, &lb, &extent));
+        OSHMPI_am_progress_mpi_bcast(buffer, INT_MAX, mpi_type, root, comm);
+        buffer = (char *) buffer + extent * INT_MAX;
+        nelems -= INT_MAX;
+    }
+    OSHMPI_am_progress_mpi_bcast(buffer, (int) nelems, mpi_type, root, comm);
+}
+
+/* Concatenate the elements of all PEs by broadcasts from each of them. It is used when a count
+ * or a displacement exceeds the int limit of MPI allgather(v). */
+OSHMPI_STATIC_INLINE_PREFIX void coll_collect_large_impl(void *dest, const void *source,
+                                                         const size_t * all_nelems,
+                                                         MPI_Datatype mpi_type, MPI_Comm comm)
+{
+    MPI_Aint lb, extent;
+    int rank, size;
+    char *pos = (char *) dest;
+
+    OSHMPI_CALLMPI(MPI_Comm_rank(comm, &rank));
+    OSHMPI_CALLMPI(MPI_Comm_size(comm, &size));
+    OSHMPI_CALLMPI(MPI_Type_get_extent(mpi_type, &lb, &extent));
+
+    for (int root = 0; root < size; root++) {
+        size_t bytes = all_nelems[root] * (size_t) extent;
+
+        if (root == rank)
+            memcpy(pos, source, bytes);
+        coll_bcast_impl(pos, all_nelems[root], mpi_type, root, comm);
+        pos += bytes;
+    }
+}
+
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_broadcast_team(OSHMPI_team_t * team, void *dest,
                                                        const void *source, size_t nelems,
                                                        MPI_Datatype mpi_type, int PE_root)
@@ -56,8 +97,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_broadcast_team(OSHMPI_team_t * team, voi
     MPI_Aint lb, extent;
     int typesize;
 
-    OSHMPI_am_progress_mpi_bcast(PE_root == team->my_pe ? (void *) source : dest,
-                                 nelems, mpi_type, PE_root, team->comm);
+    coll_bcast_impl(PE_root == team->my_pe ? (void *) source : dest,
+                    nelems, mpi_type, PE_root, team->comm);
 
     if (PE_root == team->my_pe) {
         OSHMPI_CALLMPI(MPI_Type_get_extent(mpi_type, &lb, &extent));
@@ -74,6 +115,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_collect_team(OSHMPI_team_t * team, void
 {
     int *rcounts, *rdispls;
     int comm_size = 0;
+    size_t *all_nelems, total_nelems = 0;
     unsigned int same_nelems = 0;
 
     /* collect allows each PE to have different nelems. */
@@ -84,22 +126,30 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_collect_team(OSHMPI_team_t * team, void
     rdispls = OSHMPIU_malloc(comm_size * sizeof(int));
     OSHMPI_ASSERT(rdispls);
 
-    OSHMPI_am_progress_mpi_allgather(&nelems, 1, MPI_INT, rcounts, 1, MPI_INT, team->comm);
+    all_nelems = OSHMPIU_malloc(comm_size * sizeof(size_t));
+    OSHMPI_ASSERT(all_nelems);
 
-    rdispls[0] = 0;
-    same_nelems = (nelems == rcounts[0]) ? 1 : 0;
-    for (int i = 1; i < comm_size; i++) {
-        rdispls[i] = rdispls[i - 1] + rcounts[i - 1];
-        same_nelems &= (nelems == rcounts[i]);
+    OSHMPI_am_progress_mpi_allgather(&nelems, sizeof(size_t), MPI_BYTE, all_nelems,
+                                     sizeof(size_t), MPI_BYTE, team->comm);
+
+    same_nelems = 1;
+    for (int i = 0; i < comm_size; i++) {
+        rcounts[i] = (int) all_nelems[i];
+        rdispls[i] = (int) total_nelems;
+        total_nelems += all_nelems[i];
+        same_nelems &= (nelems == all_nelems[i]);
     }
 
-    if (same_nelems)    /* call faster allgather if same nelems on all PEs */
+    if (total_nelems > INT_MAX)
+        coll_collect_large_impl(dest, source, all_nelems, mpi_type, team->comm);
+    else if (same_nelems)    /* call faster allgather if same nelems on all PEs */
         OSHMPI_am_progress_mpi_allgather(source, nelems, mpi_type, dest, nelems, mpi_type,
                                          team->comm);
     else
         OSHMPI_am_progress_mpi_allgatherv(source, nelems, mpi_type, dest, rcounts, rdispls,
                                           mpi_type, team->comm);
 
+    OSHMPIU_free(all_nelems);
     OSHMPIU_free(rdispls);
     OSHMPIU_free(rcounts);
 }
@@ -108,7 +158,11 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_fcollect_team(OSHMPI_team_t * team, void
                                                       const void *source, size_t nelems,
                                                       MPI_Datatype mpi_type)
 {
-    OSHMPI_am_progress_mpi_allgather(source, nelems, mpi_type, dest, nelems, mpi_type, team->comm);
+    if (nelems > INT_MAX)       /* collect handles any number of elements */
+        OSHMPI_collect_team(team, dest, source, nelems, mpi_type);
+    else
+        OSHMPI_am_progress_mpi_allgather(source, nelems, mpi_type, dest, nelems, mpi_type,
+                                         team->comm);
 }
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_alltoall_team(OSHMPI_team_t * team, void *dest,
@@ -155,6 +209,18 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_allreduce_team(OSHMPI_team_t * team, voi
                                                        const void *source, size_t nreduce,
                                                        MPI_Datatype mpi_type, MPI_Op op)
 {
+    MPI_Aint lb, extent;
+
+    /* MPI counts are int. */
+    while (nreduce > INT_MAX) {
+        OSHMPI_CALLMPI(MPI_Type_get_extent(mpi_type, &lb, &extent));
+        OSHMPI_am_progress_mpi_allreduce((source == dest) ? MPI_IN_PLACE : source,
+                                         dest, INT_MAX, mpi_type, op, team->comm);
+        source = (const char *) source + extent * INT_MAX;
+        dest = (char *) dest + extent * INT_MAX;
+        nreduce -= INT_MAX;
+    }
+
     /* source and dest may be the same array, but may not be overlapping. */
     OSHMPI_am_progress_mpi_allreduce((source == dest) ? MPI_IN_PLACE : source,
                                      dest, (int) nreduce, mpi_type, op, team->comm);
-- 
2.43.0


From 41dfcfc06b5b9c512cc94f2a266d6dad0e1169fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:50 +0000
Subject: [PATCH 32/32] fix: fail shmem_align when no aligned block can be
 symmetric

The heap bases of the PEs are congruent only up to the alignment that MPI
gives to window memory. A block with a larger alignment then has a
different offset on every PE, and remote accesses to it hit other memory.
---
 src/include/oshmpi_impl.h |  1 +
 src/internal/mem_impl.c   |  7 +++++++
 src/internal/setup_impl.c | 12 ++++++++++++
 3 files changed, 20 insertions(+)

diff --git a/src/include/oshmpi_impl.h b/src/include/oshmpi_impl.h
index f51e55b..cf0ba08 100644
--- a/src/include/oshmpi_impl.h
+++ b/src/include/oshmpi_impl.h
@@ -213,6 +213,7 @@ typedef struct {
 #endif
 
     MPI_Aint symm_heap_true_size;
+    size_t symm_heap_base_diff; /* Address bits of the heap base that differ among PEs */
     mspace symm_heap_mspace;
     OSHMPIU_thread_cs_t symm_heap_mspace_cs;
 
diff --git a/src/internal/mem_impl.c b/src/internal/mem_impl.c
index 17e461d..756e6c6 100644
--- a/src/internal/mem_impl.c
+++ b/src/internal/mem_impl.c
@@ -82,6 +82,13 @@ void *OSHMPI_align(size_t alignment, size_t size)
     if (size == 0)
         return ptr;
 
+    /* If the heap bases of the PEs are not congruent modulo the alignment, then no
+     * aligned block has the same offset on all PEs. */
+    if ((alignment - 1) & OSHMPI_global.symm_heap_base_diff) {
+        OSHMPI_barrier_all();
+        return ptr;
+    }
+
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);
     ptr = mspace_memalign(OSHMPI_global.symm_heap_mspace, alignment, size);
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 40db12f..a9b965f 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -114,6 +114,16 @@ void OSHMPI_set_mpi_info_args(MPI_Info info)
     OSHMPI_CALLMPI(MPI_Info_set(info, "accumulate_ordering", "none"));
 }
 
+/* Collectively find the bits in which the heap bases of the PEs differ */
+static void set_symm_heap_base_diff(void *base)
+{
+    unsigned long bits[2] = { (unsigned long) base, ~(unsigned long) base };
+
+    OSHMPI_CALLMPI(MPI_Allreduce(MPI_IN_PLACE, bits, 2, MPI_UNSIGNED_LONG, MPI_BAND,
+                                 OSHMPI_global.team_world_comm));
+    OSHMPI_global.symm_heap_base_diff = ~(bits[0] | bits[1]);
+}
+
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
 static void initialize_symm_win()
 {
@@ -193,6 +203,7 @@ static void attach_symm_heap(void)
     /* The heap must not grow by memory that is not symmetric */
     mspace_set_footprint_limit(OSHMPI_global.symm_heap_mspace,
                                mspace_footprint(OSHMPI_global.symm_heap_mspace));
+    set_symm_heap_base_diff(base);
     OSHMPI_THREAD_INIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
 
     OSHMPI_CALLMPI(MPI_Win_attach(OSHMPI_global.symm_ictx.win, base, true_size));
@@ -282,6 +293,7 @@ static void initialize_symm_heap(void)
     /* The heap must not grow by memory that is not symmetric */
     mspace_set_footprint_limit(OSHMPI_global.symm_heap_mspace,
                                mspace_footprint(OSHMPI_global.symm_heap_mspace));
+    set_symm_heap_base_diff(base);
     OSHMPI_THREAD_INIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
 
     OSHMPI_CALLMPI(MPI_Win_lock_all(MPI_MODE_NOCHECK, OSHMPI_global.symm_heap_ictx.win));
-- 
2.43.0

