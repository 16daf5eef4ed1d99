/* Contracts of src/base_alloc/base_alloc_global.c (C12).
 * The operating system allocation and the chunk pools are represented by their
 * contracts: NULL, or a block of the size asked for (page- resp. word-aligned). */
#include "vp.h"
#include "utils_concurrency.h"
#include "utils_common.c"
#include "base_alloc_global.c"

#define U(p) ((uint64_t)(uintptr_t)(p))
static struct umf_ba_pool_t *mkpool_;
static uint64_t pool_class[8]; /* ghost: chunk size of pool object i */
static char pool_obj[8];
static int n_pools, n_pool_destroyed;
static char *blk;              /* the one block handed out */
static uint64_t blk_size, blk_off;
static int blk_src;            /* 0 none, 1 operating system, 2 chunk pool */
static void *blk_pool;
static int n_free, free_src, n_obtained;
static uint64_t free_ptr, free_size;
static void *free_pool;
static bool once_run;

void utils_init_once(UTIL_ONCE_FLAG *flag, void (*cb)(void)) { (void)flag; if (!once_run) { once_run = true; cb(); } }
umf_ba_pool_t *umf_ba_create(size_t size) {
    if (vp_fail("creating a size class fails")) return NULL;
    pool_class[n_pools] = size;
    return (umf_ba_pool_t *)&pool_obj[n_pools++];
}
void umf_ba_destroy(umf_ba_pool_t *p) { (void)p; n_pool_destroyed++; }
static void *mkblk(uint64_t size, uint64_t gran) {
    n_obtained++;
    if (vp_fail("no memory")) return NULL;
    blk_off = vp_range("address within a page", 0, 4095);
    ASSUME(blk_off % gran == 0);
    blk_size = size;
    blk = (char *)vp_malloc(4096 + size);
    return blk + blk_off;
}
void *ba_os_alloc(size_t size) { 
    /* the address space is finite: huge requests fail */
    if (size > ((uint64_t)1 << 40)) { n_obtained++; vp_faults++; return NULL; }
    void *p = mkblk(size, 4096); blk_src = p ? 1 : 0; return p; }
void *umf_ba_alloc(umf_ba_pool_t *pool) {
    uint64_t i = U(pool) - U(pool_obj);
    CHECK("a created size class is used", pool != NULL && i < (uint64_t)n_pools);
    void *p = mkblk(pool_class[i], 8);
    blk_src = p ? 2 : 0; blk_pool = pool;
    return p;
}
void ba_os_free(void *ptr, size_t size) { n_free++; free_src = 1; free_ptr = U(ptr); free_size = size; }
void umf_ba_free(umf_ba_pool_t *pool, void *ptr) { n_free++; free_src = 2; free_ptr = U(ptr); free_pool = pool; }

#define SETUP() do { once_run = false; ba_is_destroyed = false; n_pools = n_pool_destroyed = n_free = n_obtained = 0; blk_src = free_src = 0; vp_faults = 0; } while (0)
//@ name=C12.alloc_free props=C12 h=h_alloc fn=umf_ba_global_aligned_alloc,umf_ba_global_free,umf_ba_global_malloc_usable_size,add_metadata_and_align,get_original_alloc,size_to_idx,umf_ba_create_global unwind=7 cases=37
//@+ assume="chunk pools hand out word-aligned chunks of their class size (C13); the operating system hands out page-aligned memory; alignments are 0 or powers of two (every caller in /repo)"
void h_alloc(void) {
    SETUP();
    uint64_t size = vp_u64("size");
    /* cases: default alignment, 0, 2^0 .. 2^33, and everything larger */
    bool plain = VP_CASE == 0;
    uint64_t alignment = VP_CASE <= 1 ? 0 : (uint64_t)1 << (VP_CASE - 2);
    if (VP_CASE == 36) alignment = (uint64_t)1 << vp_range("alignment exponent", 34, 63);
    void *p = plain ? umf_ba_global_alloc(size) : umf_ba_global_aligned_alloc(size, alignment);
    if (plain) alignment = 8;
    CHECK("at most one block is obtained", n_obtained <= 1);
    CHECK("nothing is given back by an allocation", n_free == 0);
    if (!p) {
        CHECK("a failed allocation holds no memory", blk_src == 0);
        bool huge = size >= ((uint64_t)1 << 31) || alignment >= ((uint64_t)1 << 31);
        CHECK("an allocation fails only for size 0, huge requests or when memory runs out", size == 0 || huge || vp_faults > 0);
        REACH("fails", size == 0 || vp_faults > 0);
        return;
    }
    CHECK("size 0 gives NULL", size != 0);
    uint64_t b = U(blk) + blk_off;
    CHECK("a successful allocation comes from one obtained block", blk_src != 0 && n_obtained == 1);
    CHECK("the pointer is aligned as requested", alignment == 0 || (U(p) & (alignment - 1)) == 0);
    CHECK("the pointer is word aligned", U(p) % 8 == 0);
    CHECK("the memory, with its metadata, lies inside the obtained block", U(p) >= b + 8 && U(p) - b <= blk_size && blk_size - (U(p) - b) >= size);
    CHECK("the reported usable size is sufficient and inside the block", umf_ba_global_malloc_usable_size(p) >= size && umf_ba_global_malloc_usable_size(p) <= blk_size - (U(p) - b));
    bool gone = vp_bool("freed after the allocator is destroyed");
    if (gone) {
        ba_is_destroyed = true;
        umf_ba_global_free(p);
        CHECK("a late free does nothing", n_free == 0);
        REACH("late free", n_free == 0);
        return;
    }
    umf_ba_global_free(p);
    CHECK("freeing gives back exactly one block", n_free == 1);
    CHECK("to where it came from", free_src == blk_src && IMP(blk_src == 2, free_pool == blk_pool));
    CHECK("it is the block's own start", free_ptr == b);
    CHECK("and its whole size", IMP(blk_src == 1, free_size == blk_size));
    REACH("from the operating system", blk_src == 1);
    REACH("from a chunk pool", blk_src == 2);
    REACH("over-aligned", alignment > 64 && U(p) - b > 8);
}
//@ name=C12.null props=C12 h=h_null fn=umf_ba_global_free,umf_ba_global_malloc_usable_size unwind=7
void h_null(void) {
    SETUP();
    umf_ba_global_free(NULL);
    CHECK("freeing NULL does nothing", n_free == 0 && n_obtained == 0);
    CHECK("NULL has no usable bytes", umf_ba_global_malloc_usable_size(NULL) == 0);
    REACH("returns", n_free == 0);
}
//@ name=C12.destroy props=C12,C28 h=h_destroy fn=umf_ba_destroy_global,umf_ba_create_global unwind=7
void h_destroy(void) {
    SETUP();
    umf_ba_create_global();
    CHECK("each size class has a pool or its creation failed", n_pools + vp_faults == NUM_ALLOCATION_CLASSES);
    int n = n_pools;
    umf_ba_destroy_global();
    CHECK("every created size class is destroyed once", n_pool_destroyed == n);
    for (int i = 0; i < NUM_ALLOCATION_CLASSES; i++) CHECK("no destroyed class stays referenced", BASE_ALLOC.ac[i] == NULL);
    CHECK("the allocator knows it is destroyed", umf_ba_global_is_destroyed());
    umf_ba_destroy_global();
    CHECK("a second destruction does nothing", n_pool_destroyed == n);
    REACH("all created", n == NUM_ALLOCATION_CLASSES); REACH("none", n == 0);
}
