From 0f7886b6857aa67f66d9582ad82cae5516706ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:46 +0000
Subject: [PATCH 01/44] fix: disjoint pool: use the real slab size to decide
 whether a pointer belongs to a slab

---
 src/pool/pool_disjoint.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index ca4d2fa..909a540 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -176,8 +176,7 @@ static void *slab_get_chunk(slab_t *slab) {
 
 static void *slab_get(const slab_t *slab) { return slab->mem_ptr; }
 static void *slab_get_end(const slab_t *slab) {
-    return (void *)((uintptr_t)slab->mem_ptr +
-                    bucket_slab_min_size(slab->bucket));
+    return (void *)((uintptr_t)slab->mem_ptr + slab->slab_size);
 }
 
 static void slab_free_chunk(slab_t *slab, void *ptr) {
-- 
2.43.0


From da1709d60dfcbcadb4c2d83a5125446230fecd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:46 +0000
Subject: [PATCH 02/44] fix: disjoint pool: never pool sizes larger than the
 largest bucket

---
 src/pool/pool_disjoint.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 909a540..8c63268 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -597,6 +597,10 @@ umf_result_t disjoint_pool_initialize(umf_memory_provider_handle_t provider,
     disjoint_pool->provider = provider;
     disjoint_pool->params = *dp_params;
 
+    // sizes above CutOff have no bucket, they always bypass the pool
+    disjoint_pool->params.max_poolable_size =
+        utils_min(disjoint_pool->params.max_poolable_size, CutOff);
+
     disjoint_pool->known_slabs = critnib_new();
     if (disjoint_pool->known_slabs == NULL) {
         goto err_free_disjoint_pool;
-- 
2.43.0


From 3ecf6d4ec9197b3b4c99f12d073d011003e70b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:46 +0000
Subject: [PATCH 03/44] fix: disjoint pool: do not let size plus alignment
 overflow in aligned_malloc

---
 src/pool/pool_disjoint.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 8c63268..cad110b 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -729,7 +729,10 @@ void *disjoint_pool_aligned_malloc(void *pool, size_t size, size_t alignment) {
     }
 
     size_t aligned_size;
-    if (alignment <= disjoint_pool->provider_min_page_size) {
+    if (size > SIZE_MAX - (alignment - 1)) {
+        // size plus alignment is not representable - leave it to the provider
+        aligned_size = SIZE_MAX;
+    } else if (alignment <= disjoint_pool->provider_min_page_size) {
         // This allocation will be served from a Bucket which size is multiple
         // of Alignment and Slab address is aligned to provider_min_page_size
         // so the address will be properly aligned.
-- 
2.43.0


From 25f8b38d7c13848fae314831ecf9b49fcb679a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:46 +0000
Subject: [PATCH 04/44] fix: disjoint pool: free the bucket array when the pool
 is destroyed

---
 src/pool/pool_disjoint.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index cad110b..4f176da 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -926,6 +926,7 @@ void disjoint_pool_finalize(void *pool) {
     for (size_t i = 0; i < hPool->buckets_num; i++) {
         destroy_bucket(hPool->buckets[i]);
     }
+    umf_ba_global_free(hPool->buckets);
 
     VALGRIND_DO_DESTROY_MEMPOOL(hPool);
 
-- 
2.43.0


From e3fae12b222c16b5bc31ab69b15517154ef5604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:47 +0000
Subject: [PATCH 05/44] fix: disjoint pool: give the shared limit back when a
 pool is destroyed

---
 src/pool/pool_disjoint.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 4f176da..344ba80 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -259,6 +259,14 @@ create_bucket(size_t sz, disjoint_pool_t *pool,
 static void destroy_bucket(bucket_t *bucket) {
     // use an extra tmp to store the next iterator before destroying the slab
     slab_list_item_t *it = NULL, *tmp = NULL;
+
+    // the slabs cached in this bucket no longer count towards the limit
+    if (bucket->chunked_slabs_in_pool > 0) {
+        utils_fetch_and_sub_u64(&bucket->shared_limits->total_size,
+                                bucket->chunked_slabs_in_pool *
+                                    bucket_slab_alloc_size(bucket));
+    }
+
     LL_FOREACH_SAFE(bucket->available_slabs, it, tmp) {
         LL_DELETE(bucket->available_slabs, it);
         destroy_slab(it->val);
-- 
2.43.0


From 4060a6207dda257837eacd411e6fcc01124b0ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:47 +0000
Subject: [PATCH 06/44] fix: disjoint pool: fail creation when a bucket lock
 cannot be initialized

---
 src/pool/pool_disjoint.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 344ba80..94351cb 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -252,7 +252,12 @@ create_bucket(size_t sz, disjoint_pool_t *pool,
     bucket->pool = pool;
     bucket->shared_limits = shared_limits;
 
-    utils_mutex_init(&bucket->bucket_lock);
+    if (utils_mutex_init(&bucket->bucket_lock) == NULL) {
+        LOG_ERR("initialization of the bucket lock failed!");
+        umf_ba_global_free(bucket);
+        return NULL;
+    }
+
     return bucket;
 }
 
-- 
2.43.0


From 4a6f0d6f9a998b98dec2df9009b241e1cd97569f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:47 +0000
Subject: [PATCH 07/44] fix: disjoint pool: use the whole default name, not
 only its first character

---
 src/pool/pool_disjoint.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 94351cb..71569c6 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -985,7 +985,7 @@ void umfDisjointPoolSharedLimitsDestroy(
 
 umf_result_t
 umfDisjointPoolParamsCreate(umf_disjoint_pool_params_handle_t *hParams) {
-    static char *DEFAULT_NAME = "disjoint_pool";
+    static const char *DEFAULT_NAME = "disjoint_pool";
 
     if (!hParams) {
         LOG_ERR("disjoint pool params handle is NULL");
@@ -1007,8 +1007,8 @@ umfDisjointPoolParamsCreate(umf_disjoint_pool_params_handle_t *hParams) {
         .cur_pool_size = 0,
         .pool_trace = 0,
         .shared_limits = NULL,
-        .name = {*DEFAULT_NAME},
     };
+    strncpy(params->name, DEFAULT_NAME, sizeof(params->name) - 1);
 
     *hParams = params;
 
-- 
2.43.0


From 3782cbdf7cb8b52e7891df6d2c43e55e66f7a3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:47 +0000
Subject: [PATCH 08/44] fix: disjoint pool: reject a NULL name instead of
 dereferencing it

---
 src/pool/pool_disjoint.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 71569c6..17659c3 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -1110,6 +1110,11 @@ umfDisjointPoolParamsSetName(umf_disjoint_pool_params_handle_t hParams,
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
+    if (!name) {
+        LOG_ERR("name is NULL");
+        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
+    }
+
     strncpy(hParams->name, name, sizeof(hParams->name) - 1);
     return UMF_RESULT_SUCCESS;
 }
-- 
2.43.0


From 8a134d519d2f31c94c36ebd6af607aa1cfa4eba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:32 +0000
Subject: [PATCH 09/44] fix: base allocator: return NULL when memory runs out
 or the size does not fit the metadata

---
 src/base_alloc/base_alloc_global.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/base_alloc/base_alloc_global.c b/src/base_alloc/base_alloc_global.c
index ecec336..53f78ad 100644
--- a/src/base_alloc/base_alloc_global.c
+++ b/src/base_alloc/base_alloc_global.c
@@ -97,7 +97,10 @@ static int size_to_idx(size_t size) {
 static void *add_metadata_and_align(void *ptr, size_t size, size_t alignment) {
     assert(size < (1ULL << 32));
     assert(alignment < (1ULL << 32));
-    assert(ptr);
+
+    if (!ptr) {
+        return NULL;
+    }
 
     void *user_ptr;
     if (alignment <= ALLOC_METADATA_SIZE) {
@@ -182,6 +185,12 @@ void *umf_ba_global_aligned_alloc(size_t size, size_t alignment) {
         size += alignment;
     }
 
+    // the metadata keeps the size (and the offset) in 32 bits
+    if (size >= (1ULL << 32)) {
+        LOG_ERR("base_alloc: allocation size (%zu) too large.", size);
+        return NULL;
+    }
+
     int ac_index = size_to_idx(size);
     if (ac_index >= NUM_ALLOCATION_CLASSES) {
         return add_metadata_and_align(ba_os_alloc(size), size, alignment);
-- 
2.43.0


From 896ad74055f12e531b2fb8da5368fc3d19a8547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:32 +0000
Subject: [PATCH 10/44] fix: base allocator: do not let the pool size
 computation overflow

---
 src/base_alloc/base_alloc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base_alloc/base_alloc.c b/src/base_alloc/base_alloc.c
index 00e5807..b39d078 100644
--- a/src/base_alloc/base_alloc.c
+++ b/src/base_alloc/base_alloc.c
@@ -141,6 +141,10 @@ umf_ba_pool_t *umf_ba_create(size_t size) {
     size_t mutex_size = ALIGN_UP(utils_mutex_get_size(), MEMORY_ALIGNMENT);
 
     size_t metadata_size = sizeof(struct umf_ba_main_pool_meta_t);
+    if (chunk_size > (SIZE_MAX - sizeof(void *) - metadata_size - mutex_size) /
+                         MINIMUM_CHUNK_COUNT) {
+        return NULL; // pool_size would overflow
+    }
     size_t pool_size = sizeof(void *) + metadata_size + mutex_size +
                        (MINIMUM_CHUNK_COUNT * chunk_size);
     if (pool_size < MINIMUM_POOL_SIZE) {
-- 
2.43.0


From 12c3092dcef6d47d17ded49f5826cafe836e3568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:32 +0000
Subject: [PATCH 11/44] fix: linear base allocator: do not let size
 computations overflow

---
 src/base_alloc/base_alloc_linear.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/base_alloc/base_alloc_linear.c b/src/base_alloc/base_alloc_linear.c
index a35a6c2..8bf4727 100644
--- a/src/base_alloc/base_alloc_linear.c
+++ b/src/base_alloc/base_alloc_linear.c
@@ -82,8 +82,14 @@ static void ba_debug_checks(umf_ba_linear_pool_t *pool) {
 #endif /* NDEBUG */
 
 umf_ba_linear_pool_t *umf_ba_linear_create(size_t pool_size) {
-    pool_size += sizeof(umf_ba_next_linear_pool_t *) +
-                 sizeof(umf_ba_main_linear_pool_meta_t);
+    size_t metadata_size = sizeof(umf_ba_next_linear_pool_t *) +
+                           sizeof(umf_ba_main_linear_pool_meta_t);
+    if (pool_size > SIZE_MAX - metadata_size) {
+        LOG_ERR("pool_size (%zu) too large", pool_size);
+        return NULL;
+    }
+
+    pool_size += metadata_size;
     if (pool_size < MINIMUM_LINEAR_POOL_SIZE) {
         pool_size = MINIMUM_LINEAR_POOL_SIZE;
     }
@@ -137,6 +143,11 @@ void *umf_ba_linear_alloc(umf_ba_linear_pool_t *pool, size_t size) {
         size_t usable_size =
             pool_size - offsetof(umf_ba_next_linear_pool_t, data);
         if (usable_size < aligned_size) {
+            if (aligned_size - usable_size > SIZE_MAX - pool_size) {
+                utils_mutex_unlock(&pool->metadata.lock);
+                LOG_ERR("allocation size (%zu) too large", size);
+                return NULL;
+            }
             pool_size += aligned_size - usable_size;
             pool_size = ALIGN_UP_SAFE(pool_size, ba_os_get_page_size());
             if (pool_size == 0) {
-- 
2.43.0


From 946e6e857285981750c325aa4d570357c5792418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:30 +0000
Subject: [PATCH 12/44] fix: utils: utils_parse_var() looked only at the first
 occurrence of the option

---
 src/utils/utils_common.c | 47 +++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/utils/utils_common.c b/src/utils/utils_common.c
index 225c02d..5ae6f7d 100644
--- a/src/utils/utils_common.c
+++ b/src/utils/utils_common.c
@@ -59,33 +59,36 @@ char *utils_env_var_get_str(const char *envvar, const char *str) {
 
 const char *utils_parse_var(const char *var, const char *option,
                             const char **extraArg) {
-    const char *found = strstr(var, option);
-    // ensure that found string is first on list or it's a separating semicolon
-    if (!found) {
-        return NULL;
-    }
-    // if found string is not at the beginning of var ensure it's preceded by ';'
-    if (found != var && *(found - 1) != ';') {
-        return NULL;
-    }
+    // the string can occur in var several times (e.g. as a part of an argument
+    // or of a longer option), so check all of the occurrences
+    for (const char *found = strstr(var, option); found != NULL;
+         found = strstr(found + 1, option)) {
+        // ensure that found string is first on list or it's preceded by
+        // a separating semicolon
+        if (found != var && *(found - 1) != ';') {
+            continue;
+        }
 
-    const char *endFound = found + strlen(option);
-    if (!extraArg) {
-        // if there is no argument, matched string should end with ';' or '\0'
-        if (*endFound != '\0' && *endFound != ';') {
-            return NULL;
+        const char *endFound = found + strlen(option);
+        if (!extraArg) {
+            // if there is no argument, matched string should end with ';' or '\0'
+            if (*endFound != '\0' && *endFound != ';') {
+                continue;
+            }
+            return found;
         }
-        return found;
-    }
 
-    // check if matched string ends with ','
-    if (*endFound != ',') {
-        return NULL;
-    }
+        // check if matched string ends with ','
+        if (*endFound != ',') {
+            continue;
+        }
+
+        *extraArg = endFound + 1;
 
-    *extraArg = endFound + 1;
+        return found;
+    }
 
-    return found;
+    return NULL;
 }
 
 int utils_copy_path(const char *in_path, char out_path[], size_t path_max) {
-- 
2.43.0


From 66e9bcbe4e7a02f32340e4f7711943cffbb2d643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:37 +0000
Subject: [PATCH 13/44] fix: tracker: find the most nested segment on the level
 it really is on

---
 src/ipc_cache.c                   |  6 +++--
 src/provider/provider_os_memory.c | 41 +++++++++++++++++++++++++----
 src/provider/provider_tracking.c  | 43 +++++++++++++++++--------------
 3 files changed, 64 insertions(+), 26 deletions(-)

diff --git a/src/ipc_cache.c b/src/ipc_cache.c
index bf17a66..de7601d 100644
--- a/src/ipc_cache.c
+++ b/src/ipc_cache.c
@@ -182,6 +182,7 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
     ipc_opened_cache_entry_t *entry = NULL;
     umf_result_t ret = UMF_RESULT_SUCCESS;
     bool evicted = false;
+    ipc_opened_cache_key_t evicted_key;
     ipc_opened_cache_value_t evicted_value;
 
     if (!cache || !key || !retEntry) {
@@ -227,6 +228,7 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
             // remove the entry from the hash table it belongs to
             HASH_DEL(*(entry->hash_table), entry);
             cache->global->cur_size -= 1;
+            evicted_key = entry->key;
             evicted_value.mapped_base_ptr = entry->value.mapped_base_ptr;
             evicted_value.mapped_size = entry->value.mapped_size;
             evicted = true;
@@ -239,7 +241,7 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
             }
             if (NULL == utils_mutex_init(&(entry->value.mmap_lock))) {
                 LOG_ERR("Failed to initialize mutex for the IPC cache entry");
-                umf_ba_global_free(entry);
+                umf_ba_free(cache->global->cache_allocator, entry);
                 ret = UMF_RESULT_ERROR_UNKNOWN;
                 goto exit;
             }
@@ -266,7 +268,7 @@ exit:
     utils_mutex_unlock(&(cache->global->cache_lock));
 
     if (evicted) {
-        cache->eviction_cb(key, &evicted_value);
+        cache->eviction_cb(&evicted_key, &evicted_value);
     }
 
     return ret;
diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 1ecb397..dea9e69 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -325,7 +325,8 @@ err_free_bitmaps:
         hwloc_bitmap_free(out_nodeset[i]);
     }
 err_free_list:
-    umf_ba_global_free(*out_nodeset);
+    umf_ba_global_free(out_nodeset);
+    os_provider->nodeset = NULL;
     os_provider->nodeset_len = 0;
     return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
 }
@@ -659,7 +660,12 @@ static umf_result_t translate_params(umf_os_memory_provider_params_t *in_params,
         return result;
     }
 
-    initializePartitions(provider, in_params);
+    result = initializePartitions(provider, in_params);
+    if (result != UMF_RESULT_SUCCESS) {
+        LOG_ERR("error while initializing partitions");
+        free_bitmaps(provider);
+        return result;
+    }
 
     return UMF_RESULT_SUCCESS;
 }
@@ -727,7 +733,7 @@ static umf_result_t os_initialize(void *params, void **provider) {
         if (utils_mutex_init(&os_provider->lock_fd) == NULL) {
             LOG_ERR("initializing the file size lock failed");
             ret = UMF_RESULT_ERROR_UNKNOWN;
-            goto err_destroy_bitmaps;
+            goto err_close_fd;
         }
     }
 
@@ -749,8 +755,11 @@ static umf_result_t os_initialize(void *params, void **provider) {
 
     return UMF_RESULT_SUCCESS;
 
+err_close_fd:
+    (void)utils_close_fd(os_provider->fd);
 err_destroy_bitmaps:
     free_bitmaps(os_provider);
+    umf_ba_global_free(os_provider->partitions);
 err_destroy_critnib:
     critnib_delete(os_provider->fd_offset_map);
 err_destroy_hwloc_topology:
@@ -765,6 +774,7 @@ static void os_finalize(void *provider) {
 
     if (os_provider->fd > 0) {
         utils_mutex_destroy_not_free(&os_provider->lock_fd);
+        (void)utils_close_fd(os_provider->fd);
     }
 
     critnib_delete(os_provider->fd_offset_map);
@@ -838,25 +848,38 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
         // the correctly aligned part of the memory from the mapped region
         // by unmapping the rest: unaligned beginning and unaligned end
         // of this region.
+        if (length > SIZE_MAX - alignment) {
+            LOG_ERR("size %zu with alignment %zu is too big", length,
+                    alignment);
+            return -1;
+        }
         extended_length += alignment;
     }
 
     *fd_offset = 0;
 
     if (fd > 0) {
+        // file offsets of all mappings have to be page-aligned
+        size_t file_length = ALIGN_UP_SAFE(extended_length, page_size);
+        if (file_length == 0) {
+            LOG_ERR("cannot align size %zu up to page size", extended_length);
+            return -1;
+        }
+
         if (utils_mutex_lock(lock_fd)) {
             LOG_ERR("locking file size failed");
             return -1;
         }
 
-        if (*fd_size + extended_length > max_fd_size) {
+        if (*fd_size > max_fd_size ||
+            file_length > max_fd_size - *fd_size) {
             utils_mutex_unlock(lock_fd);
             LOG_ERR("cannot grow a file size beyond %zu", max_fd_size);
             return -1;
         }
 
         *fd_offset = *fd_size;
-        *fd_size += extended_length;
+        *fd_size += file_length;
         utils_mutex_unlock(lock_fd);
     }
 
@@ -883,6 +906,9 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
             utils_munmap(ptr, head_len);
         }
 
+        // the aligned memory starts head_len bytes further in the file too
+        *fd_offset += head_len;
+
         // tail address has to page-aligned
         uintptr_t tail = aligned_addr + length;
         if (tail & (page_size - 1)) {
@@ -1135,6 +1161,7 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
         membind_t membind =
             membindFirst(os_provider, addr, first_size, page_size);
         if (membind.bitmap == NULL) {
+            os_store_last_native_error(UMF_OS_RESULT_ERROR_BIND_FAILED, ENOMEM);
             goto err_unmap;
         }
 
@@ -1155,6 +1182,10 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
                     errno != 0) { // ENOSYS - Function not implemented
                     // Do not error out if memory binding is not implemented at all
                     // (like in case of WSL on Windows).
+                    if (os_provider->mode == UMF_NUMA_MODE_SPLIT &&
+                        os_provider->nodeset_len != 1) {
+                        hwloc_bitmap_free(membind.bitmap);
+                    }
                     goto err_unmap;
                 }
             }
diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 1bef858..e164e29 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -72,32 +72,37 @@ static tracker_alloc_info_t *get_most_nested_alloc_segment(
     tracker_alloc_info_t *rvalue = NULL;
     uintptr_t parent_key = 0;
     uintptr_t rkey = 0;
-    uint64_t rsize = 0;
     int level = 0;
-    int found = 0;
 
-    do {
-        assert(level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
-        found =
-            critnib_find(hTracker->alloc_segments_map[level], (uintptr_t)ptr,
-                         FIND_LE, (void *)&rkey, (void **)&rvalue);
-        if (!found || !rvalue) {
+    for (int i = 0; i < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP; i++) {
+        tracker_alloc_info_t *value = NULL;
+        uintptr_t key = 0;
+        uint64_t size = 0;
+
+        int found =
+            critnib_find(hTracker->alloc_segments_map[i], (uintptr_t)ptr,
+                         FIND_LE, (void *)&key, (void **)&value);
+        if (!found || !value) {
             break;
         }
 
-        utils_atomic_load_acquire_u64((uint64_t *)&rvalue->size, &rsize);
+        utils_atomic_load_acquire_u64((uint64_t *)&value->size, &size);
 
-        if (found && (uintptr_t)ptr < rkey + rsize) {
-            if (rvalue->n_children) {
-                if (level == MAX_LEVELS_OF_ALLOC_SEGMENT_MAP - 1) {
-                    break;
-                }
-                level++;
-                parent_key = rkey;
-                parent_value = rvalue;
-            }
+        // the segment from this level has to contain the `ptr`
+        if (key != (uintptr_t)ptr && (uintptr_t)ptr >= key + size) {
+            break;
         }
-    } while (found && ((uintptr_t)ptr < rkey + rsize) && rvalue->n_children);
+
+        parent_key = rkey;
+        parent_value = rvalue;
+        rkey = key;
+        rvalue = value;
+        level = i;
+
+        if (!rvalue->n_children) {
+            break;
+        }
+    }
 
     if (!rvalue || rkey != (uintptr_t)ptr) {
         return NULL;
-- 
2.43.0


From 551c89562328cc7daf95f7deb8d87c6f6dbf72d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:37 +0000
Subject: [PATCH 14/44] fix: tracking provider: a split left the cached IPC
 handle of the original allocation

---
 src/provider/provider_tracking.c | 34 +++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index e164e29..4acd149 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -467,6 +467,24 @@ typedef struct umf_tracking_memory_provider_t {
 
 typedef struct umf_tracking_memory_provider_t umf_tracking_memory_provider_t;
 
+// Removes the IPC handle of the `ptr` allocation from the cache (if there is any)
+// and puts it back to the upstream provider.
+static void putCachedIpcHandle(umf_tracking_memory_provider_t *p, void *ptr) {
+    ipc_cache_value_t *cache_value =
+        critnib_remove(p->ipcCache, (uintptr_t)ptr);
+    if (!cache_value) {
+        return;
+    }
+
+    umf_result_t ret = umfMemoryProviderPutIPCHandle(
+        p->hUpstream, cache_value->providerIpcData);
+    if (ret != UMF_RESULT_SUCCESS) {
+        LOG_ERR("upstream provider failed to put IPC handle, ptr=%p, ret = %d",
+                ptr, ret);
+    }
+    umf_ba_global_free(cache_value);
+}
+
 static umf_result_t trackingAlloc(void *hProvider, size_t size,
                                   size_t alignment, void **_ptr) {
     umf_tracking_memory_provider_t *p =
@@ -585,6 +603,9 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
         goto err;
     }
 
+    // the cached IPC handle describes the original (not split) allocation
+    putCachedIpcHandle(provider, ptr);
+
     // free the original value
     umf_ba_free(provider->hTracker->alloc_info_allocator, value);
     utils_mutex_unlock(&provider->hTracker->splitMergeMutex);
@@ -743,18 +764,7 @@ static umf_result_t trackingFree(void *hProvider, void *ptr, size_t size) {
         }
     }
 
-    void *value = critnib_remove(p->ipcCache, (uintptr_t)ptr);
-    if (value) {
-        ipc_cache_value_t *cache_value = (ipc_cache_value_t *)value;
-        ret = umfMemoryProviderPutIPCHandle(p->hUpstream,
-                                            cache_value->providerIpcData);
-        if (ret != UMF_RESULT_SUCCESS) {
-            LOG_ERR("upstream provider failed to put IPC handle, ptr=%p, "
-                    "size=%zu, ret = %d",
-                    ptr, size, ret);
-        }
-        umf_ba_global_free(value);
-    }
+    putCachedIpcHandle(p, ptr);
 
     ret = umfMemoryProviderFree(p->hUpstream, ptr, size);
     if (ret != UMF_RESULT_SUCCESS) {
-- 
2.43.0


From fb04caeb5a8bb452be178c11686aff9f0a238a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:37 +0000
Subject: [PATCH 15/44] fix: tracking provider: merge keeps the parent's child
 count and drops stale IPC handles

---
 src/provider/provider_tracking.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 4acd149..0fe7f94 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -645,6 +645,8 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
     mergedValue->size = totalSize;
     mergedValue->n_children = 0;
 
+    tracker_alloc_info_t *parent_value = NULL;
+
     // any different negative values
     int lowLevel = -2;
     int highLevel = -1;
@@ -655,7 +657,7 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
     }
 
     tracker_alloc_info_t *lowValue = get_most_nested_alloc_segment(
-        provider->hTracker, lowPtr, &lowLevel, NULL, NULL,
+        provider->hTracker, lowPtr, &lowLevel, NULL, &parent_value,
         0 /* no_children */); // can have children
     if (!lowValue) {
         LOG_FATAL("no left value");
@@ -714,6 +716,15 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
         provider->hTracker->alloc_segments_map[highLevel], (uintptr_t)highPtr);
     assert(erasedhighValue == highValue);
 
+    // the cached IPC handles describe the original (not merged) allocations
+    putCachedIpcHandle(provider, lowPtr);
+    putCachedIpcHandle(provider, highPtr);
+
+    // two children of the parent became one
+    if (parent_value) {
+        parent_value->n_children--;
+    }
+
     umf_ba_free(provider->hTracker->alloc_info_allocator, erasedhighValue);
 
     utils_mutex_unlock(&provider->hTracker->splitMergeMutex);
-- 
2.43.0


From 61707cdea44ad9624b693bde7a449357e569ee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:37 +0000
Subject: [PATCH 16/44] fix: tracking provider: revert the upstream split if it
 cannot be registered

---
 src/provider/provider_tracking.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 0fe7f94..a8bb3e3 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -597,9 +597,16 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
         // this cannot fail since we know the element exists (nothing to allocate)
         assert(cret == 0);
         (void)cret;
-        // TODO: what now? should we rollback the split? This can only happen due to ENOMEM
-        // so it's unlikely but probably the best solution would be to try to preallocate everything
+        // TODO: this can only happen due to ENOMEM so it's unlikely
+        // but probably the best solution would be to try to preallocate everything
         // (value and critnib nodes) before calling umfMemoryProviderAllocationSplit.
+        umf_result_t ret2 = umfMemoryProviderAllocationMerge(
+            provider->hUpstream, ptr, highPtr, totalSize);
+        if (ret2 != UMF_RESULT_SUCCESS) {
+            LOG_ERR("upstream provider failed to revert the split, ptr=%p, "
+                    "totalSize=%zu, ret=%d",
+                    ptr, totalSize, ret2);
+        }
         goto err;
     }
 
-- 
2.43.0


From 148122769ad2787d0b89fb4875173eaa458e2c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:37 +0000
Subject: [PATCH 17/44] fix: tracking provider: release everything if the
 creation fails

---
 src/provider/provider_tracking.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index a8bb3e3..50172e7 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -815,6 +815,7 @@ static umf_result_t trackingInitialize(void *params, void **ret) {
     *provider = *((umf_tracking_memory_provider_t *)params);
     if (provider->hUpstream == NULL || provider->hTracker == NULL ||
         provider->pool == NULL || provider->ipcCache == NULL) {
+        umf_ba_global_free(provider);
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
@@ -1202,6 +1203,11 @@ umf_result_t umfTrackingMemoryProviderCreate(
 
     params.hIpcMappedCache =
         umfIpcOpenedCacheCreate(ipcOpenedCacheEvictionCallback);
+    if (!params.hIpcMappedCache) {
+        LOG_ERR("failed to create the cache of opened IPC handles");
+        critnib_delete(params.ipcCache);
+        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+    }
 
     LOG_DEBUG("upstream=%p, tracker=%p, "
               "pool=%p, ipcCache=%p, hIpcMappedCache=%p",
@@ -1209,8 +1215,14 @@ umf_result_t umfTrackingMemoryProviderCreate(
               (void *)params.pool, (void *)params.ipcCache,
               (void *)params.hIpcMappedCache);
 
-    return umfMemoryProviderCreate(&UMF_TRACKING_MEMORY_PROVIDER_OPS, &params,
-                                   hTrackingProvider);
+    umf_result_t ret = umfMemoryProviderCreate(
+        &UMF_TRACKING_MEMORY_PROVIDER_OPS, &params, hTrackingProvider);
+    if (ret != UMF_RESULT_SUCCESS) {
+        umfIpcOpenedCacheDestroy(params.hIpcMappedCache);
+        critnib_delete(params.ipcCache);
+    }
+
+    return ret;
 }
 
 void umfTrackingMemoryProviderGetUpstreamProvider(
-- 
2.43.0


From 20f5296a5353c75ba94edbcd0c1ed4303f7c66dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:37 +0000
Subject: [PATCH 18/44] fix: tracking provider: a failed open must not keep the
 cache entry in use

---
 src/provider/provider_tracking.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 50172e7..06144fe 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -1136,6 +1136,9 @@ static umf_result_t trackingOpenIpcHandle(void *provider, void *providerIpcData,
     if (ret == UMF_RESULT_SUCCESS) {
         assert(mapped_ptr != NULL);
         *ptr = mapped_ptr;
+    } else {
+        // the entry is not used by this caller
+        umfIpcHandleMappedCacheRelease(cache_entry);
     }
 
     return ret;
-- 
2.43.0


From 606a28d828c298ce183416711b28e1a5e0a78927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:37 +0000
Subject: [PATCH 19/44] fix: tracking provider: do not close handles that were
 never opened

---
 src/provider/provider_tracking.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 06144fe..2e21b41 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -1022,18 +1022,20 @@ ipcOpenedCacheEvictionCallback(const ipc_opened_cache_key_t *key,
     // to avoid a race condition. If the order would be different, other thread
     // could allocate the memory at address `ptr` before a call to umfMemoryTrackerRemoveIpcSegment
     // resulting in inconsistent state.
-    if (value->mapped_base_ptr) {
-        umf_result_t ret = umfMemoryTrackerRemoveIpcSegment(
-            p->hTracker, value->mapped_base_ptr);
-        if (ret != UMF_RESULT_SUCCESS) {
-            // DO NOT return an error here, because the tracking provider
-            // cannot change behaviour of the upstream provider.
-            LOG_ERR("failed to remove the region from the IPC tracker, ptr=%p, "
-                    "size=%zu, ret = %d",
-                    value->mapped_base_ptr, value->mapped_size, ret);
-        }
+    if (value->mapped_base_ptr == NULL) {
+        // the handle has never been opened successfully
+        return;
+    }
+    umf_result_t ret = umfMemoryTrackerRemoveIpcSegment(p->hTracker,
+                                                        value->mapped_base_ptr);
+    if (ret != UMF_RESULT_SUCCESS) {
+        // DO NOT return an error here, because the tracking provider
+        // cannot change behaviour of the upstream provider.
+        LOG_ERR("failed to remove the region from the IPC tracker, ptr=%p, "
+                "size=%zu, ret = %d",
+                value->mapped_base_ptr, value->mapped_size, ret);
     }
-    umf_result_t ret = umfMemoryProviderCloseIPCHandle(
+    ret = umfMemoryProviderCloseIPCHandle(
         p->hUpstream, value->mapped_base_ptr, value->mapped_size);
     if (ret != UMF_RESULT_SUCCESS) {
         LOG_ERR("provider failed to close IPC handle, ptr=%p, size=%zu",
-- 
2.43.0


From e2a4bdf85f17dcf6560bdee038dc4e61f002ec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:37 +0000
Subject: [PATCH 20/44] fix: ipc cache: pass the key of the evicted entry to
 the eviction callback

---
 src/ipc_cache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ipc_cache.c b/src/ipc_cache.c
index de7601d..3444813 100644
--- a/src/ipc_cache.c
+++ b/src/ipc_cache.c
@@ -241,7 +241,7 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
             }
             if (NULL == utils_mutex_init(&(entry->value.mmap_lock))) {
                 LOG_ERR("Failed to initialize mutex for the IPC cache entry");
-                umf_ba_free(cache->global->cache_allocator, entry);
+                umf_ba_global_free(entry);
                 ret = UMF_RESULT_ERROR_UNKNOWN;
                 goto exit;
             }
-- 
2.43.0


From 3c5a050cc5641e79e5bea6c4bd88816aee6b5e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:37 +0000
Subject: [PATCH 21/44] fix: ipc cache: free the entry with the allocator it
 comes from

---
 src/ipc_cache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ipc_cache.c b/src/ipc_cache.c
index 3444813..de7601d 100644
--- a/src/ipc_cache.c
+++ b/src/ipc_cache.c
@@ -241,7 +241,7 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
             }
             if (NULL == utils_mutex_init(&(entry->value.mmap_lock))) {
                 LOG_ERR("Failed to initialize mutex for the IPC cache entry");
-                umf_ba_global_free(entry);
+                umf_ba_free(cache->global->cache_allocator, entry);
                 ret = UMF_RESULT_ERROR_UNKNOWN;
                 goto exit;
             }
-- 
2.43.0


From ba1e07e9067dd729704e930990d8b854eae974d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:37 +0000
Subject: [PATCH 22/44] fix: OS provider: free the list of nodesets itself on
 failure

---
 src/provider/provider_os_memory.c | 38 ++++---------------------------
 1 file changed, 4 insertions(+), 34 deletions(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index dea9e69..4a5e526 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -660,12 +660,7 @@ static umf_result_t translate_params(umf_os_memory_provider_params_t *in_params,
         return result;
     }
 
-    result = initializePartitions(provider, in_params);
-    if (result != UMF_RESULT_SUCCESS) {
-        LOG_ERR("error while initializing partitions");
-        free_bitmaps(provider);
-        return result;
-    }
+    initializePartitions(provider, in_params);
 
     return UMF_RESULT_SUCCESS;
 }
@@ -733,7 +728,7 @@ static umf_result_t os_initialize(void *params, void **provider) {
         if (utils_mutex_init(&os_provider->lock_fd) == NULL) {
             LOG_ERR("initializing the file size lock failed");
             ret = UMF_RESULT_ERROR_UNKNOWN;
-            goto err_close_fd;
+            goto err_destroy_bitmaps;
         }
     }
 
@@ -755,11 +750,8 @@ static umf_result_t os_initialize(void *params, void **provider) {
 
     return UMF_RESULT_SUCCESS;
 
-err_close_fd:
-    (void)utils_close_fd(os_provider->fd);
 err_destroy_bitmaps:
     free_bitmaps(os_provider);
-    umf_ba_global_free(os_provider->partitions);
 err_destroy_critnib:
     critnib_delete(os_provider->fd_offset_map);
 err_destroy_hwloc_topology:
@@ -774,7 +766,6 @@ static void os_finalize(void *provider) {
 
     if (os_provider->fd > 0) {
         utils_mutex_destroy_not_free(&os_provider->lock_fd);
-        (void)utils_close_fd(os_provider->fd);
     }
 
     critnib_delete(os_provider->fd_offset_map);
@@ -848,38 +839,25 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
         // the correctly aligned part of the memory from the mapped region
         // by unmapping the rest: unaligned beginning and unaligned end
         // of this region.
-        if (length > SIZE_MAX - alignment) {
-            LOG_ERR("size %zu with alignment %zu is too big", length,
-                    alignment);
-            return -1;
-        }
         extended_length += alignment;
     }
 
     *fd_offset = 0;
 
     if (fd > 0) {
-        // file offsets of all mappings have to be page-aligned
-        size_t file_length = ALIGN_UP_SAFE(extended_length, page_size);
-        if (file_length == 0) {
-            LOG_ERR("cannot align size %zu up to page size", extended_length);
-            return -1;
-        }
-
         if (utils_mutex_lock(lock_fd)) {
             LOG_ERR("locking file size failed");
             return -1;
         }
 
-        if (*fd_size > max_fd_size ||
-            file_length > max_fd_size - *fd_size) {
+        if (*fd_size + extended_length > max_fd_size) {
             utils_mutex_unlock(lock_fd);
             LOG_ERR("cannot grow a file size beyond %zu", max_fd_size);
             return -1;
         }
 
         *fd_offset = *fd_size;
-        *fd_size += file_length;
+        *fd_size += extended_length;
         utils_mutex_unlock(lock_fd);
     }
 
@@ -906,9 +884,6 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
             utils_munmap(ptr, head_len);
         }
 
-        // the aligned memory starts head_len bytes further in the file too
-        *fd_offset += head_len;
-
         // tail address has to page-aligned
         uintptr_t tail = aligned_addr + length;
         if (tail & (page_size - 1)) {
@@ -1161,7 +1136,6 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
         membind_t membind =
             membindFirst(os_provider, addr, first_size, page_size);
         if (membind.bitmap == NULL) {
-            os_store_last_native_error(UMF_OS_RESULT_ERROR_BIND_FAILED, ENOMEM);
             goto err_unmap;
         }
 
@@ -1182,10 +1156,6 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
                     errno != 0) { // ENOSYS - Function not implemented
                     // Do not error out if memory binding is not implemented at all
                     // (like in case of WSL on Windows).
-                    if (os_provider->mode == UMF_NUMA_MODE_SPLIT &&
-                        os_provider->nodeset_len != 1) {
-                        hwloc_bitmap_free(membind.bitmap);
-                    }
                     goto err_unmap;
                 }
             }
-- 
2.43.0


From 2cc60ccddbc7488961d015ce1df5a7c093797489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:37 +0000
Subject: [PATCH 23/44] fix: OS provider: release the partitions and the file
 descriptor

---
 src/provider/provider_os_memory.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 4a5e526..91379c4 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -660,7 +660,12 @@ static umf_result_t translate_params(umf_os_memory_provider_params_t *in_params,
         return result;
     }
 
-    initializePartitions(provider, in_params);
+    result = initializePartitions(provider, in_params);
+    if (result != UMF_RESULT_SUCCESS) {
+        LOG_ERR("error while initializing partitions");
+        free_bitmaps(provider);
+        return result;
+    }
 
     return UMF_RESULT_SUCCESS;
 }
@@ -728,7 +733,7 @@ static umf_result_t os_initialize(void *params, void **provider) {
         if (utils_mutex_init(&os_provider->lock_fd) == NULL) {
             LOG_ERR("initializing the file size lock failed");
             ret = UMF_RESULT_ERROR_UNKNOWN;
-            goto err_destroy_bitmaps;
+            goto err_close_fd;
         }
     }
 
@@ -750,8 +755,11 @@ static umf_result_t os_initialize(void *params, void **provider) {
 
     return UMF_RESULT_SUCCESS;
 
+err_close_fd:
+    (void)utils_close_fd(os_provider->fd);
 err_destroy_bitmaps:
     free_bitmaps(os_provider);
+    umf_ba_global_free(os_provider->partitions);
 err_destroy_critnib:
     critnib_delete(os_provider->fd_offset_map);
 err_destroy_hwloc_topology:
@@ -766,6 +774,7 @@ static void os_finalize(void *provider) {
 
     if (os_provider->fd > 0) {
         utils_mutex_destroy_not_free(&os_provider->lock_fd);
+        (void)utils_close_fd(os_provider->fd);
     }
 
     critnib_delete(os_provider->fd_offset_map);
-- 
2.43.0


From 4051e02b2dd7f6f4d40023c3da77b51a17478989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:38 +0000
Subject: [PATCH 24/44] fix: OS provider: keep file offsets page-aligned and do
 not overflow sizes

---
 src/provider/provider_os_memory.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 91379c4..088e50b 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -848,25 +848,38 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
         // the correctly aligned part of the memory from the mapped region
         // by unmapping the rest: unaligned beginning and unaligned end
         // of this region.
+        if (length > SIZE_MAX - alignment) {
+            LOG_ERR("size %zu with alignment %zu is too big", length,
+                    alignment);
+            return -1;
+        }
         extended_length += alignment;
     }
 
     *fd_offset = 0;
 
     if (fd > 0) {
+        // file offsets of all mappings have to be page-aligned
+        size_t file_length = ALIGN_UP_SAFE(extended_length, page_size);
+        if (file_length == 0) {
+            LOG_ERR("cannot align size %zu up to page size", extended_length);
+            return -1;
+        }
+
         if (utils_mutex_lock(lock_fd)) {
             LOG_ERR("locking file size failed");
             return -1;
         }
 
-        if (*fd_size + extended_length > max_fd_size) {
+        if (*fd_size > max_fd_size ||
+            file_length > max_fd_size - *fd_size) {
             utils_mutex_unlock(lock_fd);
             LOG_ERR("cannot grow a file size beyond %zu", max_fd_size);
             return -1;
         }
 
         *fd_offset = *fd_size;
-        *fd_size += extended_length;
+        *fd_size += file_length;
         utils_mutex_unlock(lock_fd);
     }
 
-- 
2.43.0


From e913f8d0e57a4ada0a53690cc5262958832ebb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:38 +0000
Subject: [PATCH 25/44] fix: OS provider: record the file offset of the aligned
 memory

---
 src/provider/provider_os_memory.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 088e50b..d9b98d1 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -906,6 +906,9 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
             utils_munmap(ptr, head_len);
         }
 
+        // the aligned memory starts head_len bytes further in the file too
+        *fd_offset += head_len;
+
         // tail address has to page-aligned
         uintptr_t tail = aligned_addr + length;
         if (tail & (page_size - 1)) {
-- 
2.43.0


From 4b07ff749376a355e2565c96808fa39f3d7e547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:38 +0000
Subject: [PATCH 26/44] fix: OS provider: free the nodeset and set the native
 error if binding fails

---
 src/provider/provider_os_memory.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index d9b98d1..dea9e69 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -1161,6 +1161,7 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
         membind_t membind =
             membindFirst(os_provider, addr, first_size, page_size);
         if (membind.bitmap == NULL) {
+            os_store_last_native_error(UMF_OS_RESULT_ERROR_BIND_FAILED, ENOMEM);
             goto err_unmap;
         }
 
@@ -1181,6 +1182,10 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
                     errno != 0) { // ENOSYS - Function not implemented
                     // Do not error out if memory binding is not implemented at all
                     // (like in case of WSL on Windows).
+                    if (os_provider->mode == UMF_NUMA_MODE_SPLIT &&
+                        os_provider->nodeset_len != 1) {
+                        hwloc_bitmap_free(membind.bitmap);
+                    }
                     goto err_unmap;
                 }
             }
-- 
2.43.0


From fb7b2f5e65ec02cf24edf002c7a469fbb9446547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:08 +0000
Subject: [PATCH 27/44] fix: file provider: return an error if the path is too
 long

---
 src/provider/provider_file_memory.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 5cc377f..d70fb91 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -214,6 +214,7 @@ static umf_result_t file_initialize(void *params, void **provider) {
     }
 
     if (utils_copy_path(in_params->path, file_provider->path, PATH_MAX)) {
+        ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err_free_file_provider;
     }
 
-- 
2.43.0


From 5a4566b88ea94b842299721e2493acfadd2c5ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:08 +0000
Subject: [PATCH 28/44] fix: file provider: record the file offset of the
 aligned pointer

---
 src/provider/provider_file_memory.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index d70fb91..7646931 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -379,10 +379,6 @@ static umf_result_t file_mmap_aligned(file_memory_provider_t *file_provider,
         file_provider->size_fd = new_size_fd;
     }
 
-    if (aligned_offset_fd > offset_fd) {
-        file_provider->offset_fd = aligned_offset_fd;
-    }
-
     ASSERT_IS_ALIGNED(extended_size, page_size);
     ASSERT_IS_ALIGNED(aligned_offset_fd, page_size);
 
@@ -412,6 +408,9 @@ static umf_result_t file_mmap_aligned(file_memory_provider_t *file_provider,
     file_provider->base_mmap = (void *)aligned_ptr;
     file_provider->size_mmap = aligned_size;
     file_provider->offset_mmap = 0;
+    // offset in the file of the aligned pointer
+    file_provider->offset_fd =
+        aligned_offset_fd + (aligned_ptr - (uintptr_t)ptr);
 
     return UMF_RESULT_SUCCESS;
 }
-- 
2.43.0


From 78303858437a788a7c007143cd97902ec2ab8225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:08 +0000
Subject: [PATCH 29/44] fix: file provider: fail if a mapping cannot be
 recorded

---
 src/provider/provider_file_memory.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 7646931..d165cd0 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -395,6 +395,8 @@ static umf_result_t file_mmap_aligned(file_memory_provider_t *file_provider,
         LOG_ERR("inserting a value to the map of memory mapping failed "
                 "(addr=%p, size=%zu)",
                 ptr, extended_size);
+        utils_munmap(ptr, extended_size);
+        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
     }
 
     LOG_DEBUG(
-- 
2.43.0


From b3f537f6dab638a18cc53dd0df97ddd1692b0723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:08 +0000
Subject: [PATCH 30/44] fix: file provider: do not allocate memory past the end
 of the mapping

---
 src/provider/provider_file_memory.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index d165cd0..156684a 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -456,7 +456,9 @@ static umf_result_t file_alloc_aligned(file_memory_provider_t *file_provider,
     size_t new_offset_fd =
         file_provider->offset_fd + new_offset_mmap - file_provider->offset_mmap;
 
-    if (file_provider->size_mmap - new_offset_mmap < size) {
+    // aligning the pointer can move it past the end of the mapping
+    if (new_offset_mmap > file_provider->size_mmap ||
+        file_provider->size_mmap - new_offset_mmap < size) {
         umf_result = file_mmap_aligned(file_provider, size, alignment);
         if (umf_result != UMF_RESULT_SUCCESS) {
             utils_mutex_unlock(&file_provider->lock);
-- 
2.43.0


From cd5339f07f1c9e67319c253f288e014b7f64235a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:08 +0000
Subject: [PATCH 31/44] fix: devdax provider: return an error if the path is
 too long

---
 src/provider/provider_devdax_memory.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/provider/provider_devdax_memory.c b/src/provider/provider_devdax_memory.c
index 8e81971..969952b 100644
--- a/src/provider/provider_devdax_memory.c
+++ b/src/provider/provider_devdax_memory.c
@@ -204,6 +204,7 @@ static umf_result_t devdax_initialize(void *params, void **provider) {
 
     devdax_provider->size = in_params->size;
     if (utils_copy_path(in_params->path, devdax_provider->path, PATH_MAX)) {
+        ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err_coarse_delete;
     }
 
-- 
2.43.0


From d1c59e9100221ef3fc31152a0f9c53c438b0a669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:36 +0000
Subject: [PATCH 32/44] fix: memspace: clone an empty memspace

---
 src/memspace.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/memspace.c b/src/memspace.c
index 1cd80e1..5f78ec9 100644
--- a/src/memspace.c
+++ b/src/memspace.c
@@ -153,9 +153,12 @@ umf_result_t umfMemspaceClone(umf_const_memspace_handle_t hMemspace,
     }
 
     clone->size = hMemspace->size;
-    clone->nodes =
-        umf_ba_global_alloc(sizeof(umf_memtarget_handle_t) * clone->size);
-    if (!clone->nodes) {
+    clone->nodes = NULL;
+    if (clone->size > 0) {
+        clone->nodes =
+            umf_ba_global_alloc(sizeof(umf_memtarget_handle_t) * clone->size);
+    }
+    if (clone->size > 0 && !clone->nodes) {
         umf_ba_global_free(clone);
         return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
     }
-- 
2.43.0


From c92db741e82e9d93dbbcc516fc8bbfadb5ff14d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:36 +0000
Subject: [PATCH 33/44] fix: memspace: remove the last target of a memspace

---
 src/memspace.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/memspace.c b/src/memspace.c
index 5f78ec9..8153a9e 100644
--- a/src/memspace.c
+++ b/src/memspace.c
@@ -411,10 +411,14 @@ umfMemspaceMemtargetRemove(umf_memspace_handle_t hMemspace,
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-    umf_memtarget_handle_t *newNodes =
-        umf_ba_global_alloc(sizeof(*newNodes) * (hMemspace->size - 1));
-    if (!newNodes) {
-        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+    // no nodes are left if the last target is removed
+    umf_memtarget_handle_t *newNodes = NULL;
+    if (hMemspace->size > 1) {
+        newNodes =
+            umf_ba_global_alloc(sizeof(*newNodes) * (hMemspace->size - 1));
+        if (!newNodes) {
+            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+        }
     }
 
     for (unsigned j = 0, z = 0; j < hMemspace->size; j++) {
-- 
2.43.0


From 441e623afccf6f35dc51b7dafba0990ad13ac93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:36 +0000
Subject: [PATCH 34/44] fix: memspace: apply a filter completely or not at all

---
 src/memspace.c | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/memspace.c b/src/memspace.c
index 8153a9e..0d0de22 100644
--- a/src/memspace.c
+++ b/src/memspace.c
@@ -444,14 +444,26 @@ static int umfMemspaceFilterHelper(umf_memspace_handle_t memspace,
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
+    if (memspace->size == 0) {
+        return UMF_RESULT_SUCCESS; // nothing to filter
+    }
+
     size_t idx = 0;
+    size_t numNodesToKeep = 0;
     int ret;
+    umf_memtarget_handle_t *nodesToKeep = NULL;
     umf_memtarget_handle_t *nodesToRemove =
         umf_ba_global_alloc(sizeof(*nodesToRemove) * memspace->size);
     if (!nodesToRemove) {
         return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
     }
 
+    nodesToKeep = umf_ba_global_alloc(sizeof(*nodesToKeep) * memspace->size);
+    if (!nodesToKeep) {
+        ret = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+        goto free_mem;
+    }
+
     for (size_t i = 0; i < memspace->size; i++) {
         ret = filter(memspace, memspace->nodes[i], args);
         if (ret < 0) {
@@ -459,31 +471,28 @@ static int umfMemspaceFilterHelper(umf_memspace_handle_t memspace,
             goto free_mem;
         } else if (ret == 0) {
             nodesToRemove[idx++] = memspace->nodes[i];
+        } else {
+            nodesToKeep[numNodesToKeep++] = memspace->nodes[i];
         }
     }
 
-    size_t i = 0;
-    for (; i < idx; i++) {
-        ret = umfMemspaceMemtargetRemove(memspace, nodesToRemove[i]);
-        if (ret != UMF_RESULT_SUCCESS) {
-            goto re_add;
-        }
+    // nothing can fail from now on
+    for (size_t i = 0; i < idx; i++) {
+        umfMemtargetDestroy(nodesToRemove[i]);
     }
 
     umf_ba_global_free(nodesToRemove);
+    umf_ba_global_free(memspace->nodes);
+    if (numNodesToKeep == 0) {
+        umf_ba_global_free(nodesToKeep);
+        nodesToKeep = NULL;
+    }
+    memspace->nodes = nodesToKeep;
+    memspace->size = numNodesToKeep;
     return UMF_RESULT_SUCCESS;
 
-re_add:
-    // If target removal failed, add back previously removed targets.
-    for (size_t j = 0; j < i; j++) {
-        umf_result_t ret2 = umfMemspaceMemtargetAdd(memspace, nodesToRemove[j]);
-        if (ret2 != UMF_RESULT_SUCCESS) {
-            ret =
-                UMF_RESULT_ERROR_UNKNOWN; // indicate that memspace is corrupted
-            break;
-        }
-    }
 free_mem:
+    umf_ba_global_free(nodesToKeep);
     umf_ba_global_free(nodesToRemove);
     return ret;
 }
-- 
2.43.0


From d0957eba3b20133a80c2cf1351c79c07318bae36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:36 +0000
Subject: [PATCH 35/44] fix: NUMA memspace: do not use nodes after they are
 freed

---
 src/memspaces/memspace_numa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memspaces/memspace_numa.c b/src/memspaces/memspace_numa.c
index 83e65fc..b9a9765 100644
--- a/src/memspaces/memspace_numa.c
+++ b/src/memspaces/memspace_numa.c
@@ -67,10 +67,10 @@ umf_result_t umfMemspaceCreateFromNumaArray(unsigned *nodeIds, size_t numIds,
     return UMF_RESULT_SUCCESS;
 
 err_target_create:
-    umf_ba_global_free(memspace->nodes);
     for (size_t i = 0; i < nodeIdx; i++) {
         umfMemtargetDestroy(memspace->nodes[i]);
     }
+    umf_ba_global_free(memspace->nodes);
 err_nodes_alloc:
     umf_ba_global_free(memspace);
     return ret;
-- 
2.43.0


From e933591ed775caaf010dec3c91c9a78cd7ad6bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:36 +0000
Subject: [PATCH 36/44] fix: NUMA memspace: reject duplicated NUMA nodes

---
 src/memspaces/memspace_numa.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/memspaces/memspace_numa.c b/src/memspaces/memspace_numa.c
index b9a9765..965c81e 100644
--- a/src/memspaces/memspace_numa.c
+++ b/src/memspaces/memspace_numa.c
@@ -37,6 +37,15 @@ umf_result_t umfMemspaceCreateFromNumaArray(unsigned *nodeIds, size_t numIds,
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
+    // a memspace cannot contain the same target twice
+    for (size_t i = 0; i < numIds; i++) {
+        for (size_t j = i + 1; j < numIds; j++) {
+            if (nodeIds[i] == nodeIds[j]) {
+                return UMF_RESULT_ERROR_INVALID_ARGUMENT;
+            }
+        }
+    }
+
     umf_result_t ret = UMF_RESULT_SUCCESS;
     umf_memspace_handle_t memspace =
         umf_ba_global_alloc(sizeof(struct umf_memspace_t));
-- 
2.43.0


From 0bd406e4f44dc4d4f501e106d629f8a6ea7c4e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:36 +0000
Subject: [PATCH 37/44] fix: highest capacity memspace: destroy the clone if it
 cannot be sorted

---
 src/memspaces/memspace_highest_capacity.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/memspaces/memspace_highest_capacity.c b/src/memspaces/memspace_highest_capacity.c
index 4a19531..c6cf1c1 100644
--- a/src/memspaces/memspace_highest_capacity.c
+++ b/src/memspaces/memspace_highest_capacity.c
@@ -50,6 +50,7 @@ umfMemspaceHighestCapacityCreate(umf_memspace_handle_t *hMemspace) {
     ret = umfMemspaceSortDesc(highCapacityMemspace,
                               (umfGetPropertyFn)&umfMemtargetGetCapacity);
     if (ret != UMF_RESULT_SUCCESS) {
+        umfMemspaceDestroy(highCapacityMemspace);
         return ret;
     }
 
-- 
2.43.0


From b3d531742447e521ceaf8b990b941861b663524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:36 +0000
Subject: [PATCH 38/44] fix: NUMA memtarget: look NUMA nodes up by OS index

---
 src/memtargets/memtarget_numa.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/memtargets/memtarget_numa.c b/src/memtargets/memtarget_numa.c
index 88d8ac2..63ac1ae 100644
--- a/src/memtargets/memtarget_numa.c
+++ b/src/memtargets/memtarget_numa.c
@@ -263,19 +263,17 @@ static umf_result_t query_attribute_value(void *srcMemoryTarget,
         return UMF_RESULT_ERROR_NOT_SUPPORTED;
     }
 
-    hwloc_obj_t srcNumaNode = hwloc_get_obj_by_type(
-        topology, HWLOC_OBJ_NUMANODE,
-        ((struct numa_memtarget_t *)srcMemoryTarget)->physical_id);
+    hwloc_obj_t srcNumaNode = hwloc_get_numanode_obj_by_os_index(
+        topology, ((struct numa_memtarget_t *)srcMemoryTarget)->physical_id);
     if (!srcNumaNode) {
-        LOG_PERR("Getting HWLOC object by type failed");
+        LOG_PERR("Getting HWLOC object by its OS index failed");
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-    hwloc_obj_t dstNumaNode = hwloc_get_obj_by_type(
-        topology, HWLOC_OBJ_NUMANODE,
-        ((struct numa_memtarget_t *)dstMemoryTarget)->physical_id);
+    hwloc_obj_t dstNumaNode = hwloc_get_numanode_obj_by_os_index(
+        topology, ((struct numa_memtarget_t *)dstMemoryTarget)->physical_id);
     if (!dstNumaNode) {
-        LOG_PERR("Getting HWLOC object by type failed");
+        LOG_PERR("Getting HWLOC object by its OS index failed");
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-- 
2.43.0


From 473168ad6edccfc030e33218581713ae1cc82669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:36 +0000
Subject: [PATCH 39/44] fix: memory provider: return the result of the
 provider's ctl function

---
 src/memory_provider.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/memory_provider.c b/src/memory_provider.c
index fdc8725..2076d3a 100644
--- a/src/memory_provider.c
+++ b/src/memory_provider.c
@@ -27,9 +27,8 @@ static int CTL_SUBTREE_HANDLER(by_handle_provider)(
     umf_ctl_query_type_t queryType) {
     (void)indexes, (void)source;
     umf_memory_provider_handle_t hProvider = (umf_memory_provider_handle_t)ctx;
-    hProvider->ops.ctl(hProvider->provider_priv, /*unused*/ 0, extra_name, arg,
-                       queryType);
-    return 0;
+    return hProvider->ops.ctl(hProvider->provider_priv, /*unused*/ 0,
+                              extra_name, arg, queryType);
 }
 
 umf_ctl_node_t CTL_NODE(provider)[] = {
-- 
2.43.0


From 5afaafcd15648e3fb93b2e29d13faef7534f5daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:36 +0000
Subject: [PATCH 40/44] fix: memory pool: return the result of the pool's ctl
 function

---
 src/memory_pool.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/memory_pool.c b/src/memory_pool.c
index c948823..a88260f 100644
--- a/src/memory_pool.c
+++ b/src/memory_pool.c
@@ -30,8 +30,7 @@ static int CTL_SUBTREE_HANDLER(by_handle_pool)(void *ctx,
                                                umf_ctl_query_type_t queryType) {
     (void)indexes, (void)source;
     umf_memory_pool_handle_t hPool = (umf_memory_pool_handle_t)ctx;
-    hPool->ops.ctl(hPool, /*unused*/ 0, extra_name, arg, queryType);
-    return 0;
+    return hPool->ops.ctl(hPool, /*unused*/ 0, extra_name, arg, queryType);
 }
 
 umf_ctl_node_t CTL_NODE(pool)[] = {CTL_LEAF_SUBTREE2(by_handle, by_handle_pool),
-- 
2.43.0


From 11c3a2a0d6707dfe9e9ef9417f3a4bef15df8418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:36 +0000
Subject: [PATCH 41/44] fix: ctl: pass the list of indexes by reference

---
 src/ctl/ctl.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index 99ab2d9..7700a67 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -121,7 +121,7 @@ umf_result_t umfCtlExec(const char *name, void *ctx, void *arg) {
  */
 static const umf_ctl_node_t *ctl_find_node(const umf_ctl_node_t *nodes,
                                            const char *name,
-                                           umf_ctl_index_utlist_t *indexes,
+                                           umf_ctl_index_utlist_t **indexes,
                                            size_t *name_offset) {
     assert(nodes != NULL);
     assert(name != NULL);
@@ -161,7 +161,7 @@ static const umf_ctl_node_t *ctl_find_node(const umf_ctl_node_t *nodes,
                 goto error;
             }
             index_entry->value = index_value;
-            LL_PREPEND(indexes, index_entry);
+            LL_PREPEND(*indexes, index_entry);
         }
 
         for (n = &nodes[0]; n->name != NULL; ++n) {
@@ -392,21 +392,16 @@ int ctl_query(struct ctl *ctl, void *ctx, umf_ctl_query_source_t source,
      * query has been handled.
      */
     umf_ctl_index_utlist_t *indexes = NULL;
-    indexes = Zalloc(sizeof(*indexes));
-    if (!indexes) {
-        return -1;
-    }
-
     int ret = -1;
     size_t name_offset = 0;
 
     const umf_ctl_node_t *n =
-        ctl_find_node(CTL_NODE(global), name, indexes, &name_offset);
+        ctl_find_node(CTL_NODE(global), name, &indexes, &name_offset);
 
     if (n == NULL && ctl) {
         ctl_delete_indexes(indexes);
         indexes = NULL;
-        n = ctl_find_node(ctl->root, name, indexes, &name_offset);
+        n = ctl_find_node(ctl->root, name, &indexes, &name_offset);
     }
 
     // if the appropriate node (leaf or subtree) is not found, then return error
-- 
2.43.0


From 4d75da71cafc45b717653600dfd77374c550b64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:36 +0000
Subject: [PATCH 42/44] fix: ctl: fail if a name continues past a leaf

---
 src/ctl/ctl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index 7700a67..5e8d24f 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -145,6 +145,10 @@ static const umf_ctl_node_t *ctl_find_node(const umf_ctl_node_t *nodes,
             // if a subtree occurs, the subtree handler should be called
             break;
         }
+        if (nodes == NULL) {
+            // the name continues past a leaf
+            goto error;
+        }
         char *endptr;
         /*
          * Ignore errno from strtol: FreeBSD returns EINVAL if no
-- 
2.43.0


From d7079f3fa33066cb46d3789510df930581b41d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:36 +0000
Subject: [PATCH 43/44] fix: ctl: pass the rest of the name to a subtree
 handler

---
 src/ctl/ctl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index 5e8d24f..09ccf6f 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -188,6 +188,11 @@ static const umf_ctl_node_t *ctl_find_node(const umf_ctl_node_t *nodes,
         node_name = strtok_r(NULL, CTL_QUERY_NODE_SEPARATOR, &sptr);
     }
 
+    if (node_name == NULL) {
+        // nothing is left of the name
+        *name_offset = strlen(name);
+    }
+
     umf_ba_global_free(parse_str);
     return n;
 
-- 
2.43.0


From ea59cf573429e15d963f467466dda83bef243edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:36 +0000
Subject: [PATCH 44/44] fix: ctl: do not read more of a config file than was
 allocated

---
 src/ctl/ctl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index 09ccf6f..4213f71 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -564,7 +564,8 @@ int ctl_load_config_from_file(struct ctl *ctl, void *ctx,
         size_t bufpos = 0;
         int c;
         int is_comment_section = 0;
-        while ((c = fgetc(fp)) != EOF) {
+        // the file may have grown since its size was read
+        while (bufpos < (size_t)fsize && (c = fgetc(fp)) != EOF) {
             if (c == '#') {
                 is_comment_section = 1;
             } else if (c == '\n') {
-- 
2.43.0

