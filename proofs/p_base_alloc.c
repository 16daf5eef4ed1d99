/* Contracts of src/base_alloc/base_alloc.c (C13, chunk pools) */
#define VP_LOCKS
#include "vp.h"
#include "utils_common.c"
#ifdef CSZ
/* contract of utils_align_ptr_up_size_down for data that is aligned already (general case: C24) */
static void vp_align(void **ptr, size_t *size, size_t alignment) {
    (void)size;
#ifndef VP_NATIVE
    CHECK("the data area behind a region's header is aligned", __CPROVER_POINTER_OFFSET(*ptr) % alignment == 0);
#endif
}
#define utils_align_ptr_up_size_down vp_align
#endif
#include "base_alloc.c"
#ifdef CSZ
/* a region as the verifier sees it: header, then chunks */
typedef struct { umf_ba_chunk_t *next; char d[CSZ - 8]; } chunk_t;
#define PSZ ((offsetof(umf_ba_pool_t, data) + 40 + 128 * CSZ + 4095) / 4096 * 4096)
#define NCH ((PSZ - offsetof(umf_ba_pool_t, data)) / CSZ)
#define NCH2 ((PSZ - offsetof(umf_ba_next_pool_t, data)) / CSZ)
typedef struct { umf_ba_pool_t hdr; chunk_t c[NCH]; char tail[PSZ - sizeof(umf_ba_pool_t) - NCH * CSZ]; } region_t;
typedef struct { umf_ba_next_pool_t hdr; chunk_t c[NCH2]; char tail[PSZ - sizeof(umf_ba_next_pool_t) - NCH2 * CSZ]; } region2_t;
static void *os_obj(unsigned long size);
#define OS_OBJ(size) os_obj(size)
#endif

#define U(p) ((uint64_t)(uintptr_t)(p))
static uint64_t g_page;
static int os_allocs, os_frees, os_live;
static char *os_ptr; static uint64_t os_size, os_off;
static uint64_t of_ptr[8], of_size[8];
static bool env_proxy;
char *getenv(const char *n) { (void)n; return env_proxy ? (char *)"libumf_proxy.so" : NULL; }
char *strstr(const char *a, const char *b) { (void)b; return (char *)a; }
size_t utils_mutex_get_size(void) { return sizeof(utils_mutex_t); }
size_t ba_os_get_page_size(void) { return g_page; }
#ifndef OS_OBJ
#define OS_OBJ(size) vp_malloc(size)
#endif
void *ba_os_alloc(size_t size) {
    os_allocs++;
    os_size = size;
    CHECK("whole pages are requested from the operating system", size > 0 && size % g_page == 0);
    if (size > ((uint64_t)1 << 46) || vp_fail("operating system out of memory")) { os_ptr = NULL; return NULL; }
    os_live++;
    return os_ptr = OS_OBJ(size);
}
void ba_os_free(void *ptr, size_t size) {
    if (os_frees < 8) { of_ptr[os_frees] = U(ptr); of_size[os_frees] = size; }
    os_frees++;
    os_live--;
}
static void reset(void) {
    vp_locks_reset();
    os_allocs = os_frees = os_live = 0; os_ptr = NULL; vp_faults = vp_steps = 0; env_proxy = false;
#ifdef CSZ
    g_page = 4096;
#else
    g_page = (uint64_t)1 << vp_range("page size exponent", 12, 16);
#endif
}

#ifdef NDEBUG
#define DBG(...)
#else
#define DBG(...) __VA_ARGS__
#endif
/* ---- the contract of the division of a region into chunks ---------------- */
#define POSTS_ba_divide_memory_into_chunks(P) \
    P("the free list starts at the first chunk", pool->metadata.free_list == (umf_ba_chunk_t *)ptr)
/* as callers must call it: with an empty list, on word-aligned data behind the region's header */
static void ba_divide_memory_into_chunks(umf_ba_pool_t *pool, void *ptr, size_t size)
    REQ(pool->metadata.free_list == NULL && size > pool->metadata.chunk_size)
    REQ(pool->metadata.chunk_size >= sizeof(umf_ba_chunk_t) && pool->metadata.chunk_size % sizeof(uintptr_t) == 0)
    REQ(__CPROVER_w_ok(ptr, size))
    REQ(U(ptr) % sizeof(uintptr_t) == 0)
    /* the whole region behind its header, and nothing of the header */
    REQ(ptr == (void *)(os_ptr + ((char *)pool == os_ptr ? offsetof(umf_ba_pool_t, data) : offsetof(umf_ba_next_pool_t, data))))
    REQ(size == os_size - ((char *)pool == os_ptr ? offsetof(umf_ba_pool_t, data) : offsetof(umf_ba_next_pool_t, data)))
    ASG(pool->metadata.free_list; DBG(pool->metadata.n_chunks;) __CPROVER_object_from(ptr))
    ENSP("the free list starts at the first chunk", pool->metadata.free_list == (umf_ba_chunk_t *)ptr);

/* ---- creation: every chunk size ------------------------------------------ */
#define POSTS_umf_ba_create(P) \
    P("a pool is the region obtained", IMP(RET != NULL, (char *)RET == os_ptr && os_allocs == 1 && os_live == 1)) \
    P("chunks are large enough and word aligned", IMP(RET != NULL, RET->metadata.chunk_size >= size && RET->metadata.chunk_size - size < 8 && RET->metadata.chunk_size % 8 == 0)) \
    P("a region has room for its header and at least 128 chunks", IMP(RET != NULL, RET->metadata.pool_size == os_size && os_size >= offsetof(umf_ba_pool_t, data) && (os_size - offsetof(umf_ba_pool_t, data)) / 128 >= RET->metadata.chunk_size)) \
    P("a new pool has no used chunk, no further region and a free list", IMP(RET != NULL, RET->metadata.n_allocs == 0 && RET->next_pool == NULL && RET->metadata.free_list != NULL)) \
    P("a failed creation keeps nothing", IMP(RET == NULL, os_live == 0)) \
    P("creation fails only for sizes too large or when a step fails", IMP(RET == NULL, size == 0 || size > ((uint64_t)1 << 32) || vp_faults > 0))
umf_ba_pool_t *umf_ba_create(size_t size)
    REQ(1) ASG(vp_locks_held, vp_mutexes, os_allocs, os_frees, os_live, os_ptr, os_size, vp_faults, vp_steps, __CPROVER_object_whole(of_ptr), __CPROVER_object_whole(of_size))
    POSTS_umf_ba_create(ENSP);
//@ name=C13.create props=C13,C28 h=h_create mode=dfcc enforce=umf_ba_create replace=ba_divide_memory_into_chunks cost=20
void h_create(void) {
    reset(); vp_mutex_init_may_fail = true;
    size_t size = vp_u64("chunk size");
    umf_ba_pool_t *p = umf_ba_create(size), *vp_ret = p;
    VP_POSTS(POSTS_umf_ba_create);
    REACH("created", p != NULL); REACH("failed", p == NULL && vp_faults == 1);
}

/* ---- allocation and free of one chunk: every state, every chunk size ------ */
static umf_ba_chunk_t *g_fl, *g_fl_next;
static umf_ba_next_pool_t *g_np;
static umf_ba_pool_t *g_pool;
static uint64_t g_na;
#define KEPT(p) ((p)->metadata.pool_size == g_psize && (p)->metadata.chunk_size == g_csize)
static uint64_t g_psize, g_csize;
#ifdef NDEBUG
#define POSTS_umf_ba_alloc(P) \
    P("the first free chunk is handed out and leaves the list", IMP(g_fl != NULL, RET == g_fl && pool->metadata.free_list == g_fl_next && os_allocs == 0 && pool->next_pool == g_np)) \
    P("an empty list is filled from one new region of the pool's size", IMP(g_fl == NULL, os_allocs == 1 && os_size == g_psize)) \
    P("which is linked in for destruction and supplies the chunk", IMP(g_fl == NULL && os_ptr != NULL, (char *)pool->next_pool == os_ptr && ((umf_ba_next_pool_t *)os_ptr)->next_pool == g_np && RET == os_ptr + offsetof(umf_ba_next_pool_t, data))) \
    P("the chunk is counted as used", pool->metadata.n_allocs == g_na + (RET != NULL)) \
    P("NULL only if the list is empty and no region can be had; then nothing changes", IMP(RET == NULL, g_fl == NULL && os_ptr == NULL && pool->metadata.free_list == NULL && pool->next_pool == g_np)) \
    P("sizes are kept", KEPT(pool)) \
    P("the lock is taken once and released", vp_locks_held == 0 && vp_lock_ops == 1)
void *umf_ba_alloc(umf_ba_pool_t *pool)
    REQ(1) ASG(pool->metadata.free_list, pool->metadata.n_allocs, pool->next_pool, vp_locks_held, vp_lock_ops, vp_lock_a, vp_lock_b, vp_lock_c, os_allocs, os_live, os_ptr, os_size, vp_faults, vp_steps)
    POSTS_umf_ba_alloc(ENSP);
static umf_ba_pool_t *mkpool(bool empty) {
    umf_ba_pool_t *pool = malloc(sizeof(umf_ba_pool_t));
    ASSUME(pool != NULL);
    g_csize = vp_u64("chunk size"); g_psize = vp_u64("pool size");
    ASSUME(g_csize >= 8 && g_csize % 8 == 0 && g_psize % g_page == 0 && g_psize > 0 && g_psize < ((uint64_t)1 << 46));
    ASSUME((g_psize - offsetof(umf_ba_pool_t, data)) / 128 >= g_csize); /* created (C13.create) */
    pool->metadata.pool_size = g_psize; pool->metadata.chunk_size = g_csize;
    g_na = pool->metadata.n_allocs = vp_u64("used chunks");
    ASSUME(g_na > 0 && g_na < ((uint64_t)1 << 48));
    pool->next_pool = g_np = (umf_ba_next_pool_t *)(uintptr_t)vp_range("next region", 0, (uint64_t)1 << 40);
    g_fl = NULL; g_fl_next = NULL;
    if (!empty) {
        g_fl = malloc(sizeof(umf_ba_chunk_t));
        ASSUME(g_fl != NULL);
        g_fl->next = g_fl_next = (umf_ba_chunk_t *)(uintptr_t)vp_range("second free chunk", 0, (uint64_t)1 << 40);
    }
    pool->metadata.free_list = g_fl;
    return pool;
}
//@ name=C13.alloc props=C13,C29 h=h_alloc mode=dfcc enforce=umf_ba_alloc replace=ba_divide_memory_into_chunks defs="-DNDEBUG" cost=20
//@+ assume="release build of the chunk pool for the unbounded proof; the debug build, whose self-checks walk all lists, is proved for fixed chunk sizes in C13.life"
void h_alloc(void) {
    reset();
    umf_ba_pool_t *pool = mkpool(vp_bool("empty free list"));
    void *vp_ret = umf_ba_alloc(pool);
    VP_POSTS(POSTS_umf_ba_alloc);
    REACH("from the list", vp_ret != NULL && g_fl); REACH("from a new region", vp_ret && !g_fl); REACH("none", !vp_ret);
}
//@ name=C13.free props=C13,C29 h=h_free fn=umf_ba_free defs="-DNDEBUG"
void h_free(void) {
    reset();
    umf_ba_pool_t *pool = mkpool(vp_bool("empty free list"));
    umf_ba_chunk_t *c = malloc(sizeof(*c));
    ASSUME(c != NULL);
    bool null = vp_bool("NULL");
    umf_ba_free(pool, null ? NULL : c);
    CHECK("no lock stays held", vp_locks_held == 0);
    CHECK("nothing but the list and the count changes", KEPT(pool) && pool->next_pool == g_np && os_allocs == 0 && os_frees == 0 && IMP(g_fl != NULL, g_fl->next == g_fl_next));
    CHECK("NULL changes nothing", IMP(null, pool->metadata.free_list == g_fl && pool->metadata.n_allocs == g_na && vp_lock_ops == 0));
    CHECK("the chunk becomes the first free one, in front of the old list", IMP(!null, pool->metadata.free_list == c && c->next == g_fl && pool->metadata.n_allocs == g_na - 1));
    REACH("freed", !null); REACH("NULL", null);
}
#endif

/* ---- the life of a pool, debug build, fixed chunk sizes -------------------- */
#ifdef CSZ
static void *os_obj(unsigned long size) {
    CHECK("every region has the pool's size", size == PSZ);
    if (os_allocs == 1) { region_t *r = malloc(sizeof(region_t)); ASSUME(r); return r; }
    region2_t *r = malloc(sizeof(region2_t)); ASSUME(r); return r;
}
//@ name=C13.life.1024 props=C13 h=h_life fn=umf_ba_create,umf_ba_alloc,umf_ba_free,umf_ba_destroy,ba_divide_memory_into_chunks defs="-DCSZ=1024 -DNDEBUG" unwind=400 cases=4 flags="--max-field-sensitivity-array-size 1000" bounded="chunk size 1024, 4 KB pages, one pool driven through exhaustion of its first region and a refill (release build)" cost=60
//@ name=C13.life.24 props=C13 h=h_life fn=umf_ba_create,umf_ba_alloc,umf_ba_free,umf_ba_destroy,ba_divide_memory_into_chunks defs="-DCSZ=24 -DNDEBUG" unwind=400 cases=4 flags="--max-field-sensitivity-array-size 1000" bounded="chunk size 24, 4 KB pages (release build)" cost=60 tier=thorough timeout=600
void h_life(void) {
    reset();
    vp_fault_mode = 1; vp_fail_at = VP_CASE == 1 ? 1 : VP_CASE == 2 ? 2 : 1000; /* which region request fails */
    umf_ba_pool_t *p = umf_ba_create(CSZ - (CSZ % 16 ? 0 : 3));
    if (VP_CASE == 1) { CHECK("no pool without memory", p == NULL && os_live == 0); REACH("fail 1", !p); return; }
    CHECK("created", p != NULL);
    char *data = (char *)p + offsetof(umf_ba_pool_t, data);
    umf_ba_chunk_t *c = p->metadata.free_list;
    for (uint64_t i = 0; i < NCH; i++) {
        CHECK("the free list holds every chunk of the region, side by side", (char *)c == data + i * CSZ);
        c = c->next;
    }
    CHECK("the list ends after the last whole chunk", c == NULL);
    void *first = NULL, *second = NULL;
    for (uint64_t i = 0; i < NCH; i++) {
        void *q = umf_ba_alloc(p);
        CHECK("chunks are handed out one after the other, never twice", q == data + i * CSZ);
        if (i == 0) first = q;
        if (i == 1) second = q;
    }
    CHECK("all chunks are used before more memory is requested", os_allocs == 1 && p->metadata.n_allocs == NCH && p->metadata.free_list == NULL);
    if (VP_CASE == 3) {
        umf_ba_free(p, second); umf_ba_free(p, first); umf_ba_free(p, NULL);
        CHECK("freed chunks are reused", umf_ba_alloc(p) == first && umf_ba_alloc(p) == second && os_allocs == 1);
    }
    void *q = umf_ba_alloc(p);
    if (VP_CASE == 2) {
        CHECK("no memory: NULL, pool unchanged", q == NULL && os_live == 1 && p->metadata.n_allocs == NCH && p->next_pool == NULL && p->metadata.free_list == NULL);
        REACH("fail 2", !q);
    } else {
        CHECK("a second region is used", q == os_ptr + offsetof(umf_ba_next_pool_t, data) && os_live == 2);
        umf_ba_free(p, q);
        REACH("two regions", os_live == 2);
    }
    int live = os_live;
    env_proxy = vp_bool("in the proxy library");
    umf_ba_destroy(p);
    CHECK("a pool still in use inside the proxy library is kept", IMP(env_proxy, os_live == live && os_frees == 0));
    CHECK("destruction returns every region once, with its size", IMP(!env_proxy, os_live == 0 && of_size[0] == PSZ && (live == 1 ? of_ptr[0] == U(p) : of_ptr[1] == U(p) && of_ptr[0] == U(os_ptr) && of_size[1] == PSZ)));
    CHECK("locks", vp_locks_held == 0 && IMP(!env_proxy, vp_mutexes == 0));
}
//@ name=C13.life.debug props=C13 h=h_life_dbg fn=ba_debug_checks,pool_contains_pointer defs="-DCSZ=1024" unwind=400 cases=1 flags="--max-field-sensitivity-array-size 1000" bounded="chunk size 1024, 4 KB pages, debug build with its self-checks, four operations" cost=50
#ifndef NDEBUG
void h_life_dbg(void) {
    reset(); vp_fault_mode = 1; vp_fail_at = 1000;
    umf_ba_pool_t *p = umf_ba_create(CSZ);
    char *data = (char *)p + offsetof(umf_ba_pool_t, data);
    void *x = umf_ba_alloc(p), *y = umf_ba_alloc(p);
    CHECK("distinct chunks", x == data && y == data + CSZ && p->metadata.n_allocs == 2);
    umf_ba_free(p, x); umf_ba_free(p, y);
    CHECK("freed chunks are reused", p->metadata.free_list == y && p->metadata.n_allocs == 0);
    umf_ba_destroy(p);
    CHECK("destruction returns the region once", os_live == 0 && os_frees == 1 && of_ptr[0] == U(p) && of_size[0] == PSZ);
    REACH("done", os_live == 0);
}
#endif
#endif
