/* Contracts of src/pool/pool_disjoint.c
 * C01 slab/chunk bookkeeping, C02 size classes, C03 malloc/aligned_malloc,
 * C04 free/usable size, C05 capacity + shared limits, C29 bucket lock.
 *
 * The state of a size class (lists, counters, the subject slab) is installed by
 * the lock stub and taken away (havocked to unusable values) by the unlock
 * stub: any access outside the lock fails a pointer obligation. */
#define VP_BA
#define VP_LOCKS
static void on_lock(void *m);
static void on_unlock(void *m);
#define VP_ON_LOCK(m) on_lock(m)
#define VP_ON_UNLOCK(m) on_unlock(m)
static void *ba_slab(unsigned long size);
static void *ba_hook(unsigned long size);
#define VP_BA_HOOK(s) ba_hook(s)
#include "vp.h"
#include "pool_disjoint_internal.h"
/* memset on slab bitmaps and records: same effect, written word-wise for the verifier */
static void *vp_memset(void *p, int c, size_t n) {
    uint64_t w = 0x0101010101010101ull * (unsigned char)c;
    CHECK("bitmap and records are set in whole words", n % 8 == 0);
    if (n == sizeof(bucket_t) && c == 0) { *(bucket_t *)p = (bucket_t){0}; return p; }
    for (size_t i = 0; i < n / 8; i++) ((uint64_t *)p)[i] = w;
    return p;
}
#define memset vp_memset
#include "utils_common.c"
#include "pool_disjoint.c"
#undef memset

#define U(p) ((uint64_t)(uintptr_t)(p))
#define P(x) ((void *)(uintptr_t)(x))
#define ADDR_MAX ((uint64_t)1 << 47)
#ifndef MAXN
#define MAXN 129
#endif

/* ---- specification: size classes ---------------------------------------- */
static bool is_pow2(uint64_t x) { return x != 0 && (x & (x - 1)) == 0; }
/* i-th class for minimum 2^exp: 2^exp, 1.5*2^exp, 2^(exp+1), ... , 2^31 */
static uint64_t class_size(uint64_t exp, uint64_t i) {
    uint64_t b = (uint64_t)1 << (exp + i / 2);
    return (i & 1) ? b + b / 2 : b;
}
static uint64_t class_count(uint64_t exp) { return 2 * (31 - exp) + 1; }
static bool is_class(uint64_t s, uint64_t min) {
    return s >= min && s <= ((uint64_t)1 << 31) && (is_pow2(s) || (s % 3 == 0 && is_pow2(s / 3) && s / 3 * 2 >= min));
}

/* ---- ghost environment --------------------------------------------------- */
static disjoint_pool_t g_pool;
static bucket_t g_b, a_b;  /* the bucket; a_b: its state at unlock */
static bucket_t i_b;       /* state installed at lock */
static umf_disjoint_pool_shared_limits_t g_lim;
static slab_t *g_x;        /* subject slab (NULL: none) */
static uint64_t i_xalloc;  /* its num_chunks_allocated at lock */
static bool x_gone;        /* it was destroyed */
static slab_t sP, sN, sH, sT; /* neighbours: previous, next, head, tail */
#define OPAQUE(k) ((slab_list_item_t *)(uintptr_t)(0x7f0000001000 + 0x1000 * (k)))
static bool locked_once, was_inserted, was_removed;
static uint64_t key_inserted, key_removed;
static void *val_inserted;
static int crit_res;
static slab_t *find_result;
static uint64_t find_arg;
/* provider */
static int prov_allocs, prov_frees, prov_live;
static uint64_t pa_ptr, pa_size, pa_align, pf_ptr, pf_size;
static umf_result_t pa_res, pf_res;
static struct { int x; } prov_obj;
#define PROV ((umf_memory_provider_handle_t)&prov_obj)
static bool pa_fail;
static uint64_t trk_base, trk_size;
static umf_result_t trk_res;
static int trk_calls;
static uint64_t o_total;

umf_result_t umfMemoryProviderAlloc(umf_memory_provider_handle_t h, size_t size, size_t alignment, void **ptr) {
    CHECK("the pool's own provider is used", h == PROV);
    prov_allocs++;
    pa_size = size; pa_align = alignment;
    pa_res = (umf_result_t)vp_u32("provider alloc result");
    if (pa_res != UMF_RESULT_SUCCESS) return pa_res;
    uint64_t a = vp_u64("provider address");
    uint64_t al = alignment > g_pool.provider_min_page_size ? alignment : g_pool.provider_min_page_size;
    ASSUME(a != 0 && a < ADDR_MAX && size < ADDR_MAX && a + size <= ADDR_MAX);
    ASSUME(al == 0 || (a & (al - 1)) == 0);
    pa_ptr = a;
    prov_live++;
    *ptr = P(a);
    return pa_res;
}
umf_result_t umfMemoryProviderFree(umf_memory_provider_handle_t h, void *ptr, size_t size) {
    CHECK("the pool's own provider is used", h == PROV);
    prov_frees++;
    pf_ptr = U(ptr); pf_size = size;
    pf_res = (umf_result_t)vp_u32("provider free result");
    if (pf_res == UMF_RESULT_SUCCESS) prov_live--;
    return pf_res;
}
umf_result_t umfMemoryProviderGetMinPageSize(umf_memory_provider_handle_t h, void *ptr, size_t *ps) {
    CHECK("the pool's own provider is used", h == PROV);
    (void)ptr;
    umf_result_t r = (umf_result_t)vp_u32("min page result");
    uint64_t v = vp_u64("min page size");
    ASSUME(is_pow2(v));
    if (r == UMF_RESULT_SUCCESS) *ps = v;
    return r;
}
umf_result_t umfMemoryTrackerGetAllocInfo(const void *ptr, umf_alloc_info_t *info) {
    (void)ptr;
    trk_calls++;
    if (trk_res == UMF_RESULT_SUCCESS) { info->base = P(trk_base); info->baseSize = trk_size; info->pool = NULL; }
    return trk_res;
}
static int crit_live;
critnib *critnib_new(void) { if (!vp_ba_nofail && vp_fail("critnib_new fails")) return NULL; crit_live++; return (critnib *)vp_malloc(1); }
void critnib_delete(critnib *c) { if (c) { crit_live--; free(c); } }
int critnib_insert(critnib *c, uintptr_t key, void *value, int update) {
    CHECK("slabs are registered in this pool's slab map without overwriting", c == g_pool.known_slabs && update == 0);
    crit_res = vp_bool("critnib_insert fails") ? (vp_bool("eexist") ? EEXIST : ENOMEM) : 0;
    if (crit_res == 0) { was_inserted = true; key_inserted = key; val_inserted = value; }
    return crit_res;
}
void *critnib_remove(critnib *c, uintptr_t key) {
    CHECK("slabs are unregistered from this pool's slab map", c == g_pool.known_slabs);
    was_removed = true; key_removed = key;
    return NULL;
}
void *critnib_find_le(critnib *c, uintptr_t key) {
    CHECK("this pool's slab map is searched", c == g_pool.known_slabs);
    find_arg = key;
    return find_result;
}
bool umf_ba_global_is_destroyed(void) { return false; }

static void on_lock(void *m) {
    if (m != (void *)&g_b.bucket_lock) return;
    CHECK("the bucket's state is entered once per operation", !locked_once);
    locked_once = true;
    g_b.available_slabs = i_b.available_slabs;
    g_b.available_slabs_num = i_b.available_slabs_num;
    g_b.unavailable_slabs = i_b.unavailable_slabs;
    g_b.chunked_slabs_in_pool = i_b.chunked_slabs_in_pool;
    g_b.alloc_count = i_b.alloc_count; g_b.alloc_pool_count = i_b.alloc_pool_count; g_b.free_count = i_b.free_count;
    if (g_x) g_x->num_chunks_allocated = i_xalloc;
}
static uint64_t a_xalloc;
static slab_list_item_t a_xiter;
static void poison(void) {
    g_b.available_slabs = OPAQUE(100);
    g_b.unavailable_slabs = OPAQUE(101);
    g_b.available_slabs_num = 0x5a5a5a5a;
    g_b.chunked_slabs_in_pool = 0x5a5a5a5a;
    g_b.alloc_count = g_b.alloc_pool_count = g_b.free_count = 0x5a5a5a5a;
}
static void on_unlock(void *m) {
    if (m != (void *)&g_b.bucket_lock) return;
    a_b = g_b;
    x_gone = g_x && vp_ba_live < (was_inserted ? 1 : 0);
    if (g_x && !x_gone) { a_xalloc = g_x->num_chunks_allocated; g_x->num_chunks_allocated = 0xdeadbeef; }
    poison();
}

static uint64_t slab_alloc_size(void) { return g_b.size > g_pool.params.slab_min_size ? g_b.size : g_pool.params.slab_min_size; }
static uint64_t g_n; /* blocks per slab of the class: max(slab_min_size / size, 1) */
#ifdef CFG_SLAB
#define n_chunks() ((uint64_t)(CFG_SLAB) / CFG_SIZE ? (uint64_t)(CFG_SLAB) / CFG_SIZE : 1)
#else
static uint64_t n_chunks(void) { return g_n; }
#endif
static uint64_t max_pooled(void) { return g_b.size <= g_pool.params.slab_min_size / 2 ? 1 : g_pool.params.capacity; }
static uint64_t eff_max_poolable(void) { uint64_t c = (uint64_t)1 << 31; return g_pool.params.max_poolable_size < c ? g_pool.params.max_poolable_size : c; }

/* a pool with arbitrary parameters; every parameter combination creation accepts */
static char g_critobj, g_name;
static uint64_t g_min;
static bucket_t *g_buckets[57]; /* entries other than the class under consideration stay NULL: using them is an error */
static uint64_t g_idx;
static void mk_pool(void) {
    vp_ba_reset(); vp_locks_reset();
    g_x = NULL; locked_once = was_inserted = was_removed = x_gone = false;
    prov_allocs = prov_frees = prov_live = trk_calls = 0;
    key_inserted = key_removed = 0; val_inserted = NULL; find_result = NULL; find_arg = 0;
    pa_ptr = pa_size = pa_align = pf_ptr = pf_size = 0; pa_res = pf_res = 0;
    TLS_last_allocation_error = UMF_RESULT_SUCCESS;
    g_pool.known_slabs = (critnib *)&g_critobj;
    g_pool.provider = PROV;
#ifdef CFG_SLAB
    g_pool.params.slab_min_size = CFG_SLAB;
#else
    g_pool.params.slab_min_size = vp_u64("slab_min_size");
#endif
    g_pool.params.max_poolable_size = vp_u64("max_poolable_size");
    g_pool.params.capacity = vp_u64("capacity");
    g_pool.params.pool_trace = vp_int("pool_trace");
    g_pool.params.cur_pool_size = vp_u64("cur_pool_size");
    g_pool.params.name[0] = 0;
    ASSUME(g_pool.params.slab_min_size < ADDR_MAX);
    /* creation clamps the poolable size to the largest class (proved in h_init) */
    ASSUME(g_pool.params.max_poolable_size <= ((uint64_t)1 << 31));
#ifdef CFG_EXP
    uint64_t exp = CFG_EXP;
#else
    uint64_t exp = vp_range("min_bucket_size_exp", 3, 31);
#endif
    g_pool.min_bucket_size_exp = exp;
    g_min = (uint64_t)1 << exp;
    g_pool.params.min_bucket_size = g_min;
    g_pool.buckets_num = class_count(exp);
    g_pool.provider_min_page_size = vp_u64("provider_min_page_size");
    ASSUME(g_pool.provider_min_page_size == 0 || is_pow2(g_pool.provider_min_page_size));
    ASSUME(g_pool.provider_min_page_size < ADDR_MAX);
    bool shared = vp_bool("shared limits");
    g_pool.params.shared_limits = shared ? &g_lim : NULL;
    g_pool.default_shared_limits = shared ? NULL : &g_lim;
    g_lim.max_size = vp_u64("limit");
    o_total = g_lim.total_size = vp_u64("total");
    ASSUME(g_lim.total_size <= g_lim.max_size);
    ASSUME(g_lim.total_size < ((uint64_t)1 << 62)); /* cached slabs are distinct memory: their total size fits the address space */
    /* the size class under consideration */
#ifdef CFG_IDX
    g_idx = CFG_IDX;
#else
    g_idx = vp_u64("bucket index");
#endif
    ASSUME(g_idx < g_pool.buckets_num);
    g_pool.buckets = g_buckets;
    g_buckets[g_idx] = &g_b;
    g_b.size = class_size(exp, g_idx);
#ifdef CFG_SLAB
    g_n = (uint64_t)(CFG_SLAB) / CFG_SIZE ? (uint64_t)(CFG_SLAB) / CFG_SIZE : 1;
    g_b.size = CFG_SIZE;
#else
    { /* slab_min_size = n * size + rest, rest < size */
        uint64_t n = vp_u64("blocks per slab");
        ASSUME(n < MAXN);
        ASSUME(n * g_b.size <= g_pool.params.slab_min_size && g_pool.params.slab_min_size - n * g_b.size < g_b.size);
        g_n = n ? n : 1;
    }
#endif
    g_b.pool = &g_pool;
    g_b.shared_limits = &g_lim;
    g_b.curr_slabs_in_use = vp_u64("stat1"); g_b.curr_slabs_in_pool = vp_u64("stat2");
    g_b.max_slabs_in_pool = g_b.max_slabs_in_use = 0;
    i_b = g_b;
    i_b.available_slabs = i_b.unavailable_slabs = NULL;
    i_b.available_slabs_num = vp_u64("available_slabs_num");
    ASSUME(i_b.available_slabs_num < ((uint64_t)1 << 48));
    i_b.chunked_slabs_in_pool = vp_u64("chunked_slabs_in_pool");
    i_b.alloc_count = i_b.alloc_pool_count = i_b.free_count = 7;
    ASSUME(i_b.chunked_slabs_in_pool <= i_b.available_slabs_num);
    ASSUME(i_b.chunked_slabs_in_pool <= max_pooled());
    ASSUME(IMP(i_b.chunked_slabs_in_pool > 0, g_lim.total_size >= slab_alloc_size()));
    poison();
}
/* bound: slabs of at most 128 blocks (bitmaps of one or two words); the bitmap
 * functions themselves are proved for every size in C01.leaf.* */
#define WORDS 2
#define MAXCH (64 * WORDS)
typedef struct { slab_t s; uint64_t words[WORDS]; } slab_fix_t; /* a slab record with its bitmap */
static slab_t *new_fix(void) { slab_fix_t *p = malloc(sizeof(slab_fix_t)); ASSUME(p != NULL); return &p->s; }
/* internal allocation of a slab record: exactly the needed bytes must be asked for */
static void *ba_slab(size_t size) {
    uint64_t n = n_chunks();
    CHECK("C01 the slab's internal record covers all its blocks", size >= sizeof(slab_t) + (n / 64 + (n % 64 != 0)) * 8);
    return new_fix();
}
static bool g_slab_allocs; /* internal allocations of this operation are slab records */
/* same bytes, but typed, which the verifier handles better */
#define TYPED(T) if (size == sizeof(T)) { T *p = malloc(sizeof(T)); ASSUME(p != NULL); return p; }
static void *ba_hook(size_t size) {
    if (g_slab_allocs) return ba_slab(size);
    static int nth;
    if (++nth == 3) return vp_malloc(size); /* the array of classes, by its place only */
    TYPED(disjoint_pool_t) TYPED(bucket_t) TYPED(umf_disjoint_pool_shared_limits_t)
    return vp_malloc(size);
}
/* the subject slab: any bitmap consistent with its in-use count */
static uint64_t i_w[WORDS]; /* free-bits at lock */
static uint64_t bits(uint64_t x) { uint64_t c = 0; for (int i = 0; i < 64; i++) c += (x >> i) & 1; return c; }
static void mk_slab(void) {
    uint64_t n = n_chunks(), words = n <= 64 ? 1 : 2;
    g_x = new_fix();
    g_x->mem_ptr = P(vp_u64("slab mem"));
    g_x->slab_size = slab_alloc_size();
    g_x->num_chunks_total = n;
    g_x->num_words = words;
    g_x->bucket = &g_b;
    g_x->iter.val = g_x;
    g_x->num_chunks_allocated = 0xdeadbeef; /* guarded by the lock */
    ASSUME(U(g_x->mem_ptr) != 0 && U(g_x->mem_ptr) < ADDR_MAX && U(g_x->mem_ptr) + g_x->slab_size <= ADDR_MAX);
    ASSUME(g_pool.provider_min_page_size == 0 || (U(g_x->mem_ptr) & (g_pool.provider_min_page_size - 1)) == 0);
    for (int i = 0; i < WORDS; i++) {
        uint64_t lim = n >= 64 * (i + 1) ? 64 : n > 64 * i ? n - 64 * i : 0;
        i_w[i] = vp_u64("free bits");
        if (lim < 64) ASSUME((i_w[i] >> lim) == 0); /* bits beyond the last block are never set */
        g_x->chunks[i] = i_w[i];
    }
    i_xalloc = n - bits(i_w[0]) - bits(i_w[1]);
}
/* put the subject slab into a list of any length at any position */
/* the shape of the lists, constant per case: 0 none, 1 exactly one, 2 more (any number) */
static int c_prev, c_next, c_other;
static bool l_hasP, l_hasN, l_PH, l_NT;
static slab_list_item_t *l_tail;
static slab_list_item_t *mk_list_with_x(void) {
    l_hasP = c_prev > 0; l_PH = c_prev == 1; l_hasN = c_next > 0; l_NT = c_next == 1;
    slab_list_item_t *X = &g_x->iter, *Pp = &sP.iter, *N = &sN.iter, *H = &sH.iter, *T = &sT.iter;
    sP.iter.val = &sP; sN.iter.val = &sN; sH.iter.val = &sH; sT.iter.val = &sT;
    slab_list_item_t *tail = l_hasN ? (l_NT ? N : T) : X;
    slab_list_item_t *head = l_hasP ? (l_PH ? Pp : H) : X;
    X->prev = l_hasP ? Pp : tail; X->next = l_hasN ? N : NULL;
    Pp->next = X; Pp->prev = l_PH ? tail : OPAQUE(1);
    H->next = OPAQUE(2); H->prev = tail;
    N->prev = X; N->next = l_NT ? NULL : OPAQUE(3);
    T->next = NULL; T->prev = OPAQUE(4);
    l_tail = tail;
    return head;
}
static bool x_removed_from(slab_list_item_t *head) {
    slab_list_item_t *X = &g_x->iter, *Pp = &sP.iter, *N = &sN.iter, *H = &sH.iter, *T = &sT.iter;
    if (!l_hasP && !l_hasN) return head == NULL;
    slab_list_item_t *tail = l_hasN ? (l_NT ? N : T) : Pp;
    slab_list_item_t *h = l_hasP ? (l_PH ? Pp : H) : N;
    if (head != h || h->prev != tail) return false;
    if (l_hasP && (Pp->next != (l_hasN ? N : NULL) || (!l_PH && Pp->prev != OPAQUE(1)))) return false;
    if (l_hasP && !l_PH && H->next != OPAQUE(2)) return false;
    if (l_hasN && N->next != (l_NT ? NULL : OPAQUE(3))) return false;
    if (l_hasN && l_hasP && N->prev != Pp) return false;
    if (l_hasN && !l_NT && (T->next != NULL || T->prev != OPAQUE(4))) return false;
    (void)X;
    return true;
}
static bool x_still_in(slab_list_item_t *head) {
    slab_list_item_t *X = &g_x->iter, *Pp = &sP.iter, *N = &sN.iter, *H = &sH.iter;
    slab_list_item_t *h = l_hasP ? (l_PH ? Pp : H) : X;
    return head == h && h->prev == l_tail && X->next == (l_hasN ? N : NULL) && IMP(l_hasP, X->prev == Pp && Pp->next == X) && IMP(l_hasN, N->prev == X && N->next == (l_NT ? NULL : OPAQUE(3)));
}
/* another list of any length that does not contain x: empty or headed by sA */
static slab_t sA;
static bool o_empty;
static slab_list_item_t *o_tail;
static slab_list_item_t *mk_other_list(void) {
    o_empty = c_other == 0;
    sA.iter.val = &sA;
    o_tail = c_other == 1 ? &sA.iter : OPAQUE(10);
    sA.iter.prev = o_tail;
    sA.iter.next = o_tail == &sA.iter ? NULL : OPAQUE(11);
    return o_empty ? NULL : &sA.iter;
}
static bool other_unchanged(slab_list_item_t *head) {
    return o_empty ? head == NULL : head == &sA.iter && sA.iter.prev == o_tail && sA.iter.next == (o_tail == &sA.iter ? NULL : OPAQUE(11));
}
static bool x_prepended_to_other(slab_list_item_t *head, slab_t *x) {
    return head == &x->iter && x->iter.val == x && (o_empty ? x->iter.next == NULL && x->iter.prev == &x->iter
        : x->iter.next == &sA.iter && x->iter.prev == o_tail && sA.iter.prev == &x->iter && sA.iter.next == (o_tail == &sA.iter ? NULL : OPAQUE(11)));
}

/* =========================== C02 =========================================== */
#define POSTS_size_to_idx(P) \
    P("the class exists", RET < class_count(pool->min_bucket_size_exp)) \
    P("the class is large enough", class_size(pool->min_bucket_size_exp, RET) >= size) \
    P("no smaller class is large enough", IMP(RET > 0, class_size(pool->min_bucket_size_exp, RET - 1) < size))
static size_t size_to_idx(disjoint_pool_t *pool, size_t size)
    REQ(size > 0 && size <= ((uint64_t)1 << 31)) ASG() POSTS_size_to_idx(ENSP);
//@ name=C02.size_to_idx props=C02 h=h_idx mode=dfcc enforce=size_to_idx
void h_idx(void) {
    disjoint_pool_t *pool = &g_pool;
    pool->min_bucket_size_exp = vp_range("exp", 3, 31);
    size_t size = vp_range("size", 1, (uint64_t)1 << 31);
    size_t vp_ret = size_to_idx(pool, size);
    VP_POSTS(POSTS_size_to_idx);
    REACH("first", vp_ret == 0); REACH("midpoint", vp_ret % 2 == 1); REACH("power", vp_ret > 1 && vp_ret % 2 == 0); REACH("last", vp_ret == 56);
}

/* =========================== creation ====================================== */
#define V_MIN "min_bucket_size"
static umf_disjoint_pool_params_t s_params;
static void mk_params(void) {
    mk_pool(); /* resets ghosts */
    s_params = g_pool.params;
    s_params.max_poolable_size = vp_u64("max_poolable_size (any)");
    s_params.min_bucket_size = vp_u64("min_bucket_size");
    s_params.shared_limits = vp_bool("shared") ? &g_lim : NULL;
    o_total = g_lim.total_size;
}
/* one case per power of two: together every valid minimum */
//@ name=C02.initialize props=C02 h=h_init fn=disjoint_pool_initialize,create_bucket,umfDisjointPoolSharedLimitsCreate cases=64 unwind=59 cost=40 timeout=600
void h_init(void) {
    mk_params();
    vp_ba_nofail = true;
    s_params.min_bucket_size = (uint64_t)1 << VP_CASE;
    void *out = NULL;
    umf_result_t r = disjoint_pool_initialize(PROV, &s_params, &out);
    CHECK("valid parameters are accepted", r == UMF_RESULT_SUCCESS && out != NULL);
    if (r != UMF_RESULT_SUCCESS) return;
    disjoint_pool_t *p = out;
    uint64_t m = s_params.min_bucket_size < 8 ? 8 : s_params.min_bucket_size > ((uint64_t)1 << 31) ? ((uint64_t)1 << 31) : s_params.min_bucket_size;
    CHECK("the smallest class is the configured minimum (clamped to 8 .. 2 GB)", ((uint64_t)1 << p->min_bucket_size_exp) == m);
    CHECK("there is a class for every power of two and midpoint up to 2 GB", p->buckets_num == class_count(p->min_bucket_size_exp));
    uint64_t i = vp_u64("class index");
    ASSUME(i < p->buckets_num && i < 57);
    CHECK("class sizes are the powers of two and midpoints in order", p->buckets[i] != NULL && p->buckets[i]->size == class_size(p->min_bucket_size_exp, i));
    CHECK("a new class is empty", p->buckets[i]->available_slabs == NULL && p->buckets[i]->unavailable_slabs == NULL && p->buckets[i]->available_slabs_num == 0 && p->buckets[i]->chunked_slabs_in_pool == 0);
    CHECK("the class belongs to this pool and its limits", p->buckets[i]->pool == p && p->buckets[i]->shared_limits == (s_params.shared_limits ? s_params.shared_limits : p->default_shared_limits));
    CHECK("pooling never exceeds the largest class", p->params.max_poolable_size == (s_params.max_poolable_size < ((uint64_t)1 << 31) ? s_params.max_poolable_size : (uint64_t)1 << 31));
    CHECK("the given parameters are used", p->provider == PROV && p->params.slab_min_size == s_params.slab_min_size && p->params.capacity == s_params.capacity && p->params.shared_limits == s_params.shared_limits);
    CHECK("without shared limits the pool is unlimited", p->default_shared_limits->max_size == SIZE_MAX && p->default_shared_limits->total_size == 0);
    CHECK("creation does not account anything", g_lim.total_size == o_total && prov_allocs == 0);
    REACH("created", i == 56); REACH("one class", p->buckets_num == 1);
}
//@ name=C28.disjoint.initialize props=C28 h=h_init_fail fn=disjoint_pool_initialize,disjoint_pool_finalize,create_bucket,destroy_bucket cases=30 unwind=4 unwindset=vp_memset.0:30 bounded="3 size classes (all classes are created by the same loop, see C02.initialize); every single failure and every permanent failure from some step on" cost=30
void h_init_fail(void) {
    mk_params();
    s_params.min_bucket_size = VP_CASE == 28 ? 0 : VP_CASE == 29 ? 100 : (uint64_t)1 << 30;
    bool bad = VP_CASE >= 25;
    if (VP_CASE < 25) vp_fault_case(VP_CASE, 12); else vp_fault_case(0, 0);
    vp_mutex_init_may_fail = true;
    crit_live = 0;
    void *out = &g_name, **pout = VP_CASE == 27 ? NULL : &out;
    umf_memory_provider_handle_t prov = VP_CASE == 25 ? NULL : PROV;
    void *par = VP_CASE == 26 ? NULL : &s_params;
    umf_result_t r = disjoint_pool_initialize(prov, par, pout);
    CHECK("invalid parameters are rejected", IMP(bad, r == UMF_RESULT_ERROR_INVALID_ARGUMENT && vp_ba_live == 0));
    CHECK("a failed step is reported as an error", IMP(r == UMF_RESULT_SUCCESS, vp_faults == 0));
    CHECK("a failed creation publishes nothing", IMP(r != UMF_RESULT_SUCCESS, out == (void *)&g_name));
    CHECK("a failed creation releases all memory", IMP(r != UMF_RESULT_SUCCESS, vp_ba_live == 0));
    CHECK("a failed creation releases the slab map", IMP(r != UMF_RESULT_SUCCESS, crit_live == 0));
    CHECK("a failed creation destroys every lock it initialised", IMP(r != UMF_RESULT_SUCCESS, vp_mutexes == 0));
    CHECK("only resource exhaustion makes valid parameters fail", IMP(!bad && r != UMF_RESULT_SUCCESS, r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY && vp_faults > 0));
    REACH("created", r == UMF_RESULT_SUCCESS); REACH("rejected", bad); REACH("late failure", r != UMF_RESULT_SUCCESS && vp_ba_allocs >= 5);
    if (r == UMF_RESULT_SUCCESS) {
        CHECK("every size class has an initialised lock", vp_mutexes == 3);
        CHECK("the faults of this proof cover every step of creation", vp_steps <= 12);
        vp_fault_case(0, 0);
        disjoint_pool_finalize(out);
        CHECK("destruction releases all memory", vp_ba_live == 0);
        CHECK("destruction releases the slab map and every lock", crit_live == 0 && vp_mutexes == 0);
        CHECK("shared limits are not destroyed with the pool", g_lim.total_size == o_total);
    }
}

/* =========================== allocation ==================================== */
/* what every allocation served from class g_b must do; ret is the start of the chunk */
static uint64_t c_base, c_k;
static void check_pool_alloc(uint64_t size, uint64_t ret, bool had_x, bool x_empty) {
    slab_t *s = had_x ? g_x : (slab_t *)val_inserted;
    uint64_t n = n_chunks();
    CHECK("C01 a slab is entered only under its class lock, which is released", locked_once && vp_locks_held == 0);
    if (!ret) {
        CHECK("C03 a failed allocation sets the last allocation error", TLS_last_allocation_error != UMF_RESULT_SUCCESS);
        CHECK("C01 allocation fails only when no slab has a free block", !had_x);
        CHECK("C01 a failed allocation leaves the class unchanged", a_b.available_slabs == i_b.available_slabs && other_unchanged(a_b.unavailable_slabs) && a_b.available_slabs_num == i_b.available_slabs_num);
        CHECK("C28 a failed allocation leaks nothing", vp_ba_live == 0 && (prov_live == 0 || pf_res != UMF_RESULT_SUCCESS) && !was_inserted);
        CHECK("C05 a failed allocation leaves the accounting unchanged", g_lim.total_size == o_total && a_b.chunked_slabs_in_pool == i_b.chunked_slabs_in_pool);
        return;
    }
    CHECK("C01 the block comes from a slab with a free block, or from a new registered slab", IMP(!had_x, was_inserted && key_inserted == pa_ptr && s != NULL && prov_allocs == 1));
    CHECK("C01 no new slab is made while a slab has a free block", IMP(had_x, prov_allocs == 0 && !was_inserted && vp_ba_allocs == 0));
    if (!had_x && !was_inserted) return;
    uint64_t base = had_x ? U(g_x->mem_ptr) : pa_ptr;
    uint64_t k = vp_u64("block number"); /* the k with ret = base + k * size */
    ASSUME(k < 256);
    ASSUME(ret < base || ret - base >= 256 * g_b.size || (k * g_b.size <= ret - base && ret - base - k * g_b.size < g_b.size));
    c_base = base; c_k = k;
    CHECK("C01 the block starts at a chunk of the slab", ret >= base && k < n && ret == base + k * g_b.size);
    if (!(ret >= base && k < n)) return;
    CHECK("C01 the block lies inside the slab's memory", g_b.size <= s->slab_size - k * g_b.size && s->slab_size == (had_x ? slab_alloc_size() : pa_size));
    CHECK("C03 the block is large enough", size <= g_b.size);
    uint64_t used_before = had_x ? i_xalloc : 0;
    uint64_t used_after = had_x ? a_xalloc : s->num_chunks_allocated;
    if (had_x) {
        CHECK("C01 the block was free", (i_w[k / 64] >> (k % 64)) & 1);
        CHECK("C01 exactly this block becomes used", g_x->chunks[0] == (k < 64 ? i_w[0] & ~((uint64_t)1 << k) : i_w[0]) && g_x->chunks[1] == (k < 64 ? i_w[1] : i_w[1] & ~((uint64_t)1 << (k % 64))));
        CHECK("C01 the slab's geometry is unchanged", s->num_chunks_total == n && s->bucket == &g_b);
    } else {
        CHECK("C01 a new slab has the geometry of its class", s->num_chunks_total == n && s->num_words == n / 64 + (n % 64 != 0) && s->bucket == &g_b && U(s->mem_ptr) == pa_ptr && s->slab_size == slab_alloc_size() && pa_size == slab_alloc_size());
        uint64_t f0 = n >= 64 ? ~(uint64_t)0 : ((uint64_t)1 << n) - 1, f1 = n >= 128 ? ~(uint64_t)0 : n > 64 ? ((uint64_t)1 << (n - 64)) - 1 : 0;
        if (k < 64) f0 &= ~((uint64_t)1 << k); else f1 &= ~((uint64_t)1 << (k % 64));
        CHECK("C01 a new slab has every block free except the one handed out", s->chunks[0] == f0 && (n <= 64 || s->chunks[1] == f1));
    }
    CHECK("C01 the in-use count grows by one", used_after == used_before + 1);
    bool full_now = used_after == n;
    if (had_x) {
        CHECK("C01 a slab stays available exactly while it has a free block", full_now ? x_removed_from(a_b.available_slabs) && x_prepended_to_other(a_b.unavailable_slabs, g_x) : x_still_in(a_b.available_slabs) && other_unchanged(a_b.unavailable_slabs));
        CHECK("C01 the number of available slabs is exact", a_b.available_slabs_num == i_b.available_slabs_num - (full_now ? 1 : 0));
    } else {
        CHECK("C01 a new slab is available exactly while it has a free block", full_now ? a_b.available_slabs == NULL && x_prepended_to_other(a_b.unavailable_slabs, s) : a_b.available_slabs == &s->iter && s->iter.prev == &s->iter && s->iter.next == NULL && s->iter.val == s && other_unchanged(a_b.unavailable_slabs));
        CHECK("C01 the number of available slabs is exact", a_b.available_slabs_num == i_b.available_slabs_num + (full_now ? 0 : 1));
    }
    CHECK("C05 taking a cached empty slab gives its share of the limit back, nothing else does", a_b.chunked_slabs_in_pool == i_b.chunked_slabs_in_pool - (x_empty ? 1 : 0) && g_lim.total_size == o_total - (x_empty ? slab_alloc_size() : 0));
    CHECK("C05 allocation never raises the accounted total", g_lim.total_size <= o_total);
}
static bool had_x, x_empty;
static void mk_alloc_state(void) {
    g_slab_allocs = true;
    had_x = VP_CASE < 9; c_prev = 0; c_next = had_x ? VP_CASE % 3 : 0; c_other = had_x ? VP_CASE / 3 : VP_CASE - 9;
    i_b.unavailable_slabs = mk_other_list();
    if (had_x) {
        mk_slab();
        ASSUME(i_xalloc < n_chunks());
        x_empty = i_xalloc == 0;
        ASSUME(IMP(x_empty, i_b.chunked_slabs_in_pool > 0));
        i_b.available_slabs = mk_list_with_x();
        ASSUME(i_b.available_slabs_num >= 1 && IMP(l_hasN, i_b.available_slabs_num >= 2));
    } else {
        x_empty = false;
        ASSUME(i_b.available_slabs_num == 0);
        i_b.available_slabs = NULL;
    }
    ASSUME(slab_alloc_size() < ADDR_MAX);
}
//@ name=C01.malloc props=C01 h=h_malloc fn=disjoint_pool_malloc,bucket_get_free_chunk,slab_get_chunk,create_slab,bucket_create_slab,bucket_get_avail_slab cases=12 unwind=4 unwindset=bits.0:65,vp_memset.0:3 bounded="slabs of at most 128 blocks; every size, every configuration, lists of any length" timeout=900 tier=thorough cost=100
//@ name=C01.malloc.96 props=C01,C03,C05,C28,C29 h=h_malloc fn=disjoint_pool_malloc,bucket_get_free_chunk,slab_get_chunk,create_slab,bucket_create_slab,bucket_get_avail_slab cases=12 unwind=4 unwindset=bits.0:65,vp_memset.0:3 defs="-DCFG_EXP=6 -DCFG_IDX=1 -DCFG_SIZE=96 -DCFG_SLAB=9613" bounded="size class 96 with slabs of 9613 bytes; lists of any length" cost=10
//@ name=C01.malloc.2G props=C01,C03,C05,C28,C29 h=h_malloc fn=disjoint_pool_malloc,bucket_get_free_chunk,slab_get_chunk,create_slab,bucket_create_slab,bucket_get_avail_slab cases=12 unwind=4 unwindset=bits.0:65,vp_memset.0:3 defs="-DCFG_EXP=28 -DCFG_IDX=6 -DCFG_SIZE=2147483648ull -DCFG_SLAB=0 -DONECHUNK" bounded="size class 2^31, one block per slab; lists of any length" cost=10
void h_malloc(void) {
    mk_pool();
    mk_alloc_state();
    size_t size = vp_u64("size");
    bool direct = size > eff_max_poolable();
    /* the class under consideration is the one that serves this size */
    if (!direct && size) ASSUME(g_b.size >= size && (g_idx == 0 || class_size(g_pool.min_bucket_size_exp, g_idx - 1) < size));
    void *ret = disjoint_pool_malloc(&g_pool, size);
    CHECK("C29 no lock is held at return", vp_locks_held == 0);
    if (size == 0) {
        CHECK("C03 a zero-size request returns NULL and touches nothing", ret == NULL && prov_allocs == 0 && vp_lock_ops == 0);
    } else if (direct) {
        CHECK("C03 a request above the poolable size goes to the provider with exactly its size", prov_allocs == 1 && pa_size == size && !was_inserted && vp_ba_allocs == 0);
        CHECK("C03 the provider's memory is returned", IMP(pa_res == UMF_RESULT_SUCCESS, U(ret) == pa_ptr));
        CHECK("C03 the provider's failure is reported", IMP(pa_res != UMF_RESULT_SUCCESS, ret == NULL && TLS_last_allocation_error == pa_res));
        CHECK("C05 a direct allocation leaves the accounting unchanged", g_lim.total_size == o_total);
    } else {
        check_pool_alloc(size, U(ret), had_x, x_empty);
    }
    REACH("direct", direct && ret); REACH("zero", size == 0); 
#ifndef ONECHUNK
    REACH("from existing slab", !direct && ret && had_x && !x_empty);
#endif
   
    REACH("from cached slab", !direct && ret && x_empty); REACH("new slab", !direct && ret && !had_x); REACH("pool failure", !direct && size && !ret);
    REACH("slab gets full", !direct && ret && had_x && a_xalloc == n_chunks());
}

/* ---- aligned allocation ---- */
//@ name=C03.aligned props=C03 h=h_aligned fn=disjoint_pool_aligned_malloc cases=12 unwind=4 unwindset=bits.0:65,vp_memset.0:3 bounded="slabs of at most 128 blocks; every size, alignment and configuration, lists of any length" timeout=900 tier=thorough cost=120
//@ name=C03.aligned.96 props=C03,C29 h=h_aligned fn=disjoint_pool_aligned_malloc cases=12 unwind=4 unwindset=bits.0:65,vp_memset.0:3 defs="-DCFG_EXP=6 -DCFG_IDX=1 -DCFG_SIZE=96 -DCFG_SLAB=9613" bounded="size class 96 with slabs of 9613 bytes" cost=10
//@ name=C03.aligned.192 props=C03 h=h_aligned fn=disjoint_pool_aligned_malloc cases=12 unwind=4 unwindset=bits.0:65,vp_memset.0:3 defs="-DCFG_EXP=3 -DCFG_IDX=9 -DCFG_SIZE=192 -DCFG_SLAB=1000" bounded="size class 192 with slabs of 1000 bytes" cost=10
void h_aligned(void) {
    mk_pool();
    mk_alloc_state();
    size_t size = vp_u64("size"), al = vp_u64("alignment");
    ASSUME(al == 0 || is_pow2(al));
    uint64_t pg = g_pool.provider_min_page_size;
    /* room needed inside a class: exact arithmetic, no wrap-around */
    bool ovf = al > 1 && size > SIZE_MAX - (al - 1);
    uint64_t need = al <= 1 ? size : al <= pg ? ((size + al - 1) & ~(al - 1)) : size + al - 1;
    bool direct = ovf || need > g_pool.params.max_poolable_size;
    if (!direct && size) ASSUME(g_b.size >= need && (g_idx == 0 || class_size(g_pool.min_bucket_size_exp, g_idx - 1) < need));
    void *ret = disjoint_pool_aligned_malloc(&g_pool, size, al);
    CHECK("C29 no lock is held at return", vp_locks_held == 0);
    if (size == 0) {
        CHECK("C03 a zero-size request returns NULL and touches nothing", ret == NULL && prov_allocs == 0 && vp_lock_ops == 0);
        return;
    }
    CHECK("C03 the pointer is aligned as requested", IMP(al > 1, (U(ret) & (al - 1)) == 0));
    if (direct) {
        CHECK("C03 a request that cannot be pooled goes to the provider with its size and alignment", prov_allocs == 1 && pa_size == size && (pa_align == al || al <= 1) && !was_inserted && vp_ba_allocs == 0);
        CHECK("C03 the provider's memory is returned", IMP(pa_res == UMF_RESULT_SUCCESS, U(ret) == pa_ptr));
        CHECK("C03 the provider's failure is reported", IMP(pa_res != UMF_RESULT_SUCCESS, ret == NULL && TLS_last_allocation_error == pa_res));
    } else if (!ret) {
        check_pool_alloc(size, 0, had_x, x_empty);
    } else {
        /* the block handed out is the one containing the pointer */
        uint64_t base = had_x ? U(g_x->mem_ptr) : pa_ptr, k = vp_u64("block of the pointer");
        CHECK("C03 the pointer lies in the slab", U(ret) >= base && U(ret) - base < n_chunks() * g_b.size);
        ASSUME(k < n_chunks() && k * g_b.size <= U(ret) - base && U(ret) - base - k * g_b.size < g_b.size);
        CHECK("C03 the requested bytes lie inside the block", size <= g_b.size && U(ret) - base - k * g_b.size <= g_b.size - size);
        check_pool_alloc(size, base + k * g_b.size, had_x, x_empty);
    }
    REACH("direct", direct && ret); REACH("overflow", ovf); REACH("from existing slab", !direct && ret && had_x && al > pg && U(ret) != U(g_x->mem_ptr));
    REACH("page-aligned class", !direct && ret && al > 1 && al <= pg); REACH("new slab", !direct && ret && !had_x && al > pg);
}

/* =========================== free and usable size ========================== */
static bool x_full;
static uint64_t f_k, f_off;
static void mk_free_state(void) {
    /* cases 0..26: x full, in the unavailable list; 27..35: x has free blocks, in the available list */
    x_full = VP_CASE < 27;
    int c = x_full ? VP_CASE : VP_CASE - 27;
    c_prev = c % 3; c_next = c / 3 % 3; c_other = x_full ? c / 9 : 2;
    g_slab_allocs = true;
    mk_slab();
    f_k = vp_u64("block freed");
    ASSUME(f_k < n_chunks());
    ASSUME(((i_w[f_k / 64] >> (f_k % 64)) & 1) == 0);
    f_off = vp_u64("offset in the block");
    ASSUME(f_off < g_b.size);
    if (x_full) {
        ASSUME(i_w[0] == 0 && i_w[1] == 0);
        i_xalloc = n_chunks();
        i_b.unavailable_slabs = mk_list_with_x();
        i_b.available_slabs = mk_other_list();
        ASSUME(o_empty ? i_b.available_slabs_num == 0 : o_tail == &sA.iter ? i_b.available_slabs_num == 1 : i_b.available_slabs_num >= 2);
    } else {
        ASSUME(i_xalloc < n_chunks());
        i_b.available_slabs = mk_list_with_x();
        i_b.unavailable_slabs = mk_other_list();
        ASSUME(i_b.available_slabs_num >= 1 + (l_hasP ? 1 + !l_PH : 0) + (l_hasN ? 1 + !l_NT : 0));
    }
    find_result = g_x;
}
static bool x_prepended_or_alone(slab_list_item_t *h) { return x_prepended_to_other(h, g_x); }
//@ name=C04.free.slab props=C04,C01 h=h_free ptrint=1 fn=disjoint_pool_free,bucket_free_chunk,slab_free_chunk,bucket_can_pool,destroy_slab cases=36 unwind=4 unwindset=bits.0:65,vp_memset.0:3 bounded="slabs of at most 128 blocks; every configuration, lists of any length" tier=thorough timeout=900 cost=120
//@ name=C04.free.slab.96 props=C04,C01,C29 h=h_free ptrint=1 fn=disjoint_pool_free,bucket_free_chunk,slab_free_chunk,bucket_can_pool,destroy_slab cases=36 unwind=4 unwindset=bits.0:65,vp_memset.0:3 defs="-DCFG_EXP=6 -DCFG_IDX=1 -DCFG_SIZE=96 -DCFG_SLAB=9613" bounded="size class 96 with slabs of 9613 bytes" cost=30
//@ name=C04.free.slab.4 props=C04,C05 h=h_free ptrint=1 fn=disjoint_pool_free,bucket_free_chunk,slab_free_chunk,bucket_can_pool,destroy_slab cases=36 unwind=4 unwindset=bits.0:65,vp_memset.0:3 defs="-DCFG_EXP=3 -DCFG_IDX=6 -DCFG_SIZE=64 -DCFG_SLAB=130" bounded="size class 64 with slabs of 130 bytes" cost=20
//@ name=C04.free.slab.one props=C04,C05 h=h_free ptrint=1 fn=disjoint_pool_free,bucket_free_chunk,slab_free_chunk,bucket_can_pool,destroy_slab cases=36 unwind=4 unwindset=bits.0:65,vp_memset.0:3 defs="-DCFG_EXP=28 -DCFG_IDX=1 -DCFG_SIZE=402653184ull -DCFG_SLAB=65536 -DONECHUNK" bounded="size class 1.5*2^28, one block per slab" cost=20
void h_free(void) {
    mk_pool();
    mk_free_state();
    slab_t *x = g_x;
    uint64_t base = U(x->mem_ptr), n = n_chunks(), asize = slab_alloc_size();
    umf_result_t r = disjoint_pool_free(&g_pool, P(base + f_k * g_b.size + f_off));
    CHECK("C29 no lock is held at return", vp_locks_held == 0);
    CHECK("C04 freeing a live block succeeds", r == UMF_RESULT_SUCCESS);
    CHECK("C04 the block is looked up by its address", find_arg == base + f_k * g_b.size + f_off);
    CHECK("C04 the block goes back to its slab, not to the provider directly", trk_calls == 0);
    if (!(locked_once && r == UMF_RESULT_SUCCESS)) { CHECK("C01 the class is updated under its lock", false); return; }
    bool emptied = i_xalloc == 1;
    bool may_cache = i_b.chunked_slabs_in_pool + 1 <= max_pooled() && asize <= g_lim.max_size - o_total;
    uint64_t av0 = i_b.available_slabs_num;
    if (x_gone) {
        CHECK("C04 only an empty slab is returned", emptied);
        CHECK("C04 the slab is returned to its provider with its address and size", prov_frees == 1 && pf_ptr == base && pf_size == asize);
        CHECK("C04 the slab is no longer known", was_removed && key_removed == base);
        CHECK("C01 the lists no longer contain the slab", x_full ? x_removed_from(a_b.unavailable_slabs) && other_unchanged(a_b.available_slabs) : x_removed_from(a_b.available_slabs) && other_unchanged(a_b.unavailable_slabs));
        CHECK("C01 the number of available slabs is exact", a_b.available_slabs_num == av0 - (x_full ? 0 : 1));
        CHECK("C05 a slab that was not cached leaves the accounting unchanged", g_lim.total_size == o_total && a_b.chunked_slabs_in_pool == i_b.chunked_slabs_in_pool);
    } else {
        CHECK("C04 exactly the freed block becomes available again", x->chunks[0] == (f_k < 64 ? i_w[0] | ((uint64_t)1 << f_k) : i_w[0]) && x->chunks[1] == (f_k < 64 ? i_w[1] : i_w[1] | ((uint64_t)1 << (f_k % 64))));
        CHECK("C01 the in-use count drops by one", a_xalloc == i_xalloc - 1);
        CHECK("C01 the slab's geometry is unchanged", x->num_chunks_total == n && x->bucket == &g_b && U(x->mem_ptr) == base && x->slab_size == asize);
        CHECK("C04 a slab that is kept stays with the provider and known", prov_frees == 0 && !was_removed);
        CHECK("C01 the slab is in the list of slabs with free blocks", x_full ? x_removed_from(a_b.unavailable_slabs) && x_prepended_or_alone(a_b.available_slabs) : x_still_in(a_b.available_slabs) && other_unchanged(a_b.unavailable_slabs));
        CHECK("C01 the number of available slabs is exact", a_b.available_slabs_num == av0 + (x_full ? 1 : 0));
        CHECK("C05 an empty slab is kept only within the capacity of its class and the shared limit", IMP(emptied, may_cache));
        CHECK("C05 keeping an empty slab is accounted exactly", a_b.chunked_slabs_in_pool == i_b.chunked_slabs_in_pool + (emptied ? 1 : 0) && g_lim.total_size == o_total + (emptied ? asize : 0));
    }
    CHECK("C05 the limit is never exceeded", g_lim.total_size <= g_lim.max_size);
    CHECK("C01 nothing is allocated by a free", prov_allocs == 0 && vp_ba_allocs == 0);
    REACH("kept empty", !x_gone && emptied); REACH("returned", x_gone); REACH("over the limit", x_gone && i_b.chunked_slabs_in_pool + 1 <= max_pooled()); REACH("over capacity", x_gone && asize <= g_lim.max_size - o_total && max_pooled() > 0);
    REACH("was full", x_full); REACH("aligned pointer", f_off > 0);
#ifndef ONECHUNK
    REACH("partly used", !emptied);
#endif
}
//@ name=C04.free.direct props=C04,C29 h=h_free_direct ptrint=1 fn=disjoint_pool_free,disjoint_pool_malloc_usable_size cases=4 unwind=4 unwindset=bits.0:65
void h_free_direct(void) {
    mk_pool();
    /* no slab contains the pointer: none known below it, or the nearest one ends before it */
    bool below = VP_CASE & 1, usable = VP_CASE & 2;
    uint64_t ptr = vp_u64("ptr");
    ASSUME(ptr < ADDR_MAX);
    if (below) { mk_slab(); find_result = g_x; ASSUME(ptr >= U(g_x->mem_ptr) + g_x->slab_size); }
    trk_base = vp_u64("tracked base"); trk_size = vp_u64("tracked size"); trk_res = (umf_result_t)vp_u32("tracker result");
    if (usable) {
        size_t u = disjoint_pool_malloc_usable_size(&g_pool, P(ptr));
        CHECK("C04 NULL has no usable bytes", IMP(!ptr, u == 0));
        CHECK("C04 memory straight from the provider: its allocation ends where the tracker says", IMP(ptr && trk_res == UMF_RESULT_SUCCESS && trk_base == ptr, u == trk_size));
        CHECK("C04 the size of unknown memory is 0", IMP(trk_res != UMF_RESULT_SUCCESS, u == 0));
        CHECK("C04 a query changes nothing", prov_frees == 0 && vp_lock_ops == 0 && prov_allocs == 0);
        REACH("usable", u > 0);
        return;
    }
    umf_result_t r = disjoint_pool_free(&g_pool, P(ptr));
    CHECK("C29 no lock is held at return", vp_locks_held == 0);
    if (!ptr) {
        CHECK("C04 freeing NULL succeeds and changes nothing", r == UMF_RESULT_SUCCESS && prov_frees == 0 && vp_lock_ops == 0 && trk_calls == 0);
    } else if (trk_res != UMF_RESULT_SUCCESS) {
        CHECK("C04 an unknown pointer is reported and nothing is freed", r == trk_res && prov_frees == 0 && TLS_last_allocation_error == trk_res);
    } else {
        CHECK("C04 the original provider allocation is freed with its size", prov_frees == 1 && pf_ptr == ptr && pf_size == trk_size);
        CHECK("C04 the provider's failure is reported", r == pf_res && IMP(r != UMF_RESULT_SUCCESS, TLS_last_allocation_error == r));
    }
    CHECK("C05 the accounting is unchanged", g_lim.total_size == o_total && !was_removed);
    REACH("null", !ptr); REACH("unknown", ptr && trk_res); REACH("freed", prov_frees && !r); REACH("failed", prov_frees && r);
}
//@ name=C04.usable_size props=C04,C03 h=h_usable ptrint=1 fn=disjoint_pool_malloc_usable_size unwind=4 unwindset=bits.0:65 cost=20 bounded="slabs of at most 128 blocks" timeout=900 tier=thorough
//@ name=C04.usable_size.96 props=C04,C03 h=h_usable ptrint=1 fn=disjoint_pool_malloc_usable_size unwind=4 unwindset=bits.0:65 defs="-DCFG_EXP=6 -DCFG_IDX=1 -DCFG_SIZE=96 -DCFG_SLAB=9613" bounded="size class 96 with slabs of 9613 bytes"
//@ name=C04.usable_size.2G props=C04,C03 h=h_usable ptrint=1 fn=disjoint_pool_malloc_usable_size unwind=4 unwindset=bits.0:65 defs="-DCFG_EXP=28 -DCFG_IDX=6 -DCFG_SIZE=2147483648ull -DCFG_SLAB=65536" bounded="size class 2^31, slab_min_size 65536"
void h_usable(void) {
    mk_pool();
    mk_slab();
    find_result = g_x;
    uint64_t k = vp_u64("block"), off = vp_u64("offset"), base = U(g_x->mem_ptr);
    ASSUME(k < n_chunks() && off < g_b.size);
    size_t u = disjoint_pool_malloc_usable_size(&g_pool, P(base + k * g_b.size + off));
    CHECK("C04 the usable bytes are those up to the end of the block", u == g_b.size - off);
    CHECK("C04 a query changes nothing", prov_frees == 0 && prov_allocs == 0 && trk_calls == 0);
    REACH("aligned pointer", off > 0); REACH("start", off == 0);
}

/* =========================== destruction =================================== */
#ifndef NSL
#define NSL 3
#endif
/* a class with up to NSL slabs in its lists, the first f of the available ones empty (cached) */
//@ name=C05.finalize props=C05,C28 h=h_fini fn=disjoint_pool_finalize,destroy_bucket,destroy_slab cases=27 unwind=5 unwindset=bits.0:65 bounded="one size class with at most 2 available and 2 unavailable slabs" cost=10
void h_fini(void) {
    mk_pool();
    int na = VP_CASE % 3, nu = VP_CASE / 3 % 3, cached = VP_CASE / 9;
    if (cached > na) return;
    g_slab_allocs = true;
    g_pool.params.pool_trace = 0;
    static disjoint_pool_t *hp;
    hp = malloc(sizeof(disjoint_pool_t)); ASSUME(hp != NULL);
    bucket_t *hb = malloc(sizeof(bucket_t)); ASSUME(hb != NULL);
    bucket_t **arr = malloc(sizeof(bucket_t *)); ASSUME(arr != NULL);
    umf_disjoint_pool_shared_limits_t *dl = malloc(sizeof(*dl)); ASSUME(dl != NULL);
    *hp = g_pool; hp->buckets = arr; hp->buckets_num = 1; arr[0] = hb; *hb = g_b; hb->pool = hp;
    hp->default_shared_limits = dl; dl->max_size = SIZE_MAX; dl->total_size = 0;
    hp->params.shared_limits = &g_lim;
    hb->shared_limits = &g_lim;
    hp->known_slabs = (critnib *)malloc(1); ASSUME(hp->known_slabs != NULL);
    crit_live = 1; vp_ba_live = 4; vp_mutexes = 1;
    hb->available_slabs = hb->unavailable_slabs = NULL;
    for (int i = 0; i < na + nu; i++) {
        slab_t *s = new_fix();
        vp_ba_live++; prov_live++;
        s->mem_ptr = P(0x10000 * (i + 1)); s->bucket = hb; s->slab_size = slab_alloc_size(); s->iter.val = s;
        s->num_chunks_total = n_chunks();
        s->num_chunks_allocated = i < cached ? 0 : i < na ? 1 : n_chunks();
        slab_list_item_t *it = &s->iter;
        if (i < na) { DL_APPEND(hb->available_slabs, it); } else { DL_APPEND(hb->unavailable_slabs, it); }
    }
    hb->available_slabs_num = na; hb->chunked_slabs_in_pool = cached;
    uint64_t others = vp_u64("cached by other pools");
    ASSUME(others < ((uint64_t)1 << 62));
    g_lim.total_size = others + cached * slab_alloc_size();
    disjoint_pool_finalize(hp);
    CHECK("C28 every slab is returned to the provider", prov_frees == na + nu);
    CHECK("C28 destruction releases all memory", vp_ba_live == 0);
    CHECK("C28 destruction releases the slab map and every lock", crit_live == 0 && vp_mutexes == 0);
    CHECK("C05 destroying the pool gives its share of the limit back exactly", g_lim.total_size == others);
    CHECK("C29 no lock is held at return", vp_locks_held == 0);
    REACH("all kinds", na == 2 && nu == 2 && cached == 1);
}
