/* Contracts of src/base_alloc/base_alloc_linear.c (C13, linear pools).
 * A region is its header object; its data area is address arithmetic on it. */
#define VP_LOCKS
#include "vp.h"
#include "utils_common.c"
#define utils_align_ptr_up_size_down vp_align
/* contract of utils_align_ptr_up_size_down for aligned data (general case: C24) */
static void vp_align(void **ptr, size_t *size, size_t alignment) {
    (void)size;
#ifndef VP_NATIVE
    CHECK("the data area behind a region's header is aligned", __CPROVER_POINTER_OFFSET(*ptr) % alignment == 0);
#endif
}
#include "base_alloc_linear.c"

#define U(p) ((uint64_t)(uintptr_t)(p))
#define MAXSZ ((uint64_t)1 << 46)
static uint64_t g_page;
static int os_allocs, os_frees, os_live;
static char *os_ptr; static uint64_t os_size;
static uint64_t of_ptr[8], of_size[8];
static bool env_proxy, os_main;
char *getenv(const char *n) { (void)n; return env_proxy ? (char *)"libumf_proxy.so" : NULL; }
char *strstr(const char *a, const char *b) { (void)b; return (char *)a; }
size_t ba_os_get_page_size(void) { return g_page; }
void *ba_os_alloc(size_t size) {
    os_allocs++;
    os_size = size;
    CHECK("whole pages are requested from the operating system", size > 0 && size % g_page == 0);
    if (size > MAXSZ || vp_fail("operating system out of memory")) { vp_faults += size > MAXSZ; os_ptr = NULL; return NULL; }
    os_live++;
    if (os_main) os_ptr = (char *)malloc(sizeof(struct umf_ba_linear_pool));
    else os_ptr = (char *)malloc(sizeof(umf_ba_next_linear_pool_t));
    ASSUME(os_ptr != NULL);
    return os_ptr;
}
void ba_os_free(void *ptr, size_t size) {
    if (os_frees < 8) { of_ptr[os_frees] = U(ptr); of_size[os_frees] = size; }
    os_frees++;
    os_live--;
}
static void reset(void) {
    vp_locks_reset();
    os_allocs = os_frees = os_live = 0; os_ptr = NULL; os_main = false; vp_faults = vp_steps = 0; env_proxy = false;
    g_page = (uint64_t)1 << vp_range("page size exponent", 12, 16);
}
//@ name=C13.linear.create props=C13,C28 h=h_create fn=umf_ba_linear_create ptrint=1
void h_create(void) {
    reset(); os_main = true; vp_mutex_init_may_fail = true;
    uint64_t size = vp_u64("pool size");
    umf_ba_linear_pool_t *p = umf_ba_linear_create(size);
    if (!p) {
        CHECK("a failed creation keeps nothing", os_live == 0 && vp_mutexes == 0);
        CHECK("creation fails only for sizes too large or when a step fails", size > MAXSZ / 2 || vp_faults > 0);
        REACH("failed", vp_faults > 0); REACH("too large", size > MAXSZ);
        return;
    }
    CHECK("a pool is the region obtained", (char *)p == os_ptr && os_live == 1 && p->metadata.pool_size == os_size);
    CHECK("its free part starts behind the header and ends with the region", p->metadata.data_ptr == (char *)p + sizeof(*p) && p->metadata.size_left == os_size - sizeof(*p));
    CHECK("there is room for the requested size", p->metadata.size_left >= size);
    CHECK("a new pool has no allocation and no further region", p->next_pool == NULL && p->metadata.pool_n_allocs == 0);
    REACH("created", p != NULL);
}
/* ---- a pool in any state with 0, 1 or 2 further regions -------------------- */
static umf_ba_linear_pool_t *g_p;
static umf_ba_next_linear_pool_t *g_n[2];
static uint64_t i_ps, i_na, i_nps[2], i_nna[2], i_left;
static char *i_data;
static int g_nn;
static void mk(int nn) {
    reset();
    g_p = malloc(sizeof(*g_p));
    ASSUME(g_p != NULL);
    g_nn = nn;
    i_ps = g_p->metadata.pool_size = vp_u64("main region size");
    ASSUME(i_ps >= g_page && i_ps % g_page == 0 && i_ps <= MAXSZ);
    i_na = g_p->metadata.pool_n_allocs = vp_u64("allocations in main region");
    ASSUME(i_na < ((uint64_t)1 << 46));
    g_p->next_pool = NULL;
    for (int i = nn - 1; i >= 0; i--) {
        g_n[i] = malloc(sizeof(*g_n[i]));
        ASSUME(g_n[i] != NULL);
        i_nps[i] = g_n[i]->pool_size = vp_u64("region size");
        ASSUME(i_nps[i] >= g_page && i_nps[i] % g_page == 0 && i_nps[i] <= MAXSZ);
        i_nna[i] = g_n[i]->pool_n_allocs = vp_u64("allocations in region");
        ASSUME(i_nna[i] < ((uint64_t)1 << 46));
        g_n[i]->next_pool = g_p->next_pool;
        g_p->next_pool = g_n[i];
    }
    /* the active region is the newest */
    char *act = nn ? (char *)g_n[0] : (char *)g_p;
    uint64_t hdr = nn ? sizeof(*g_n[0]) : sizeof(*g_p), sz = nn ? i_nps[0] : i_ps;
    uint64_t used = vp_u64("bytes used in the active region");
    ASSUME(used % 8 == 0 && used <= sz - hdr);
    i_data = g_p->metadata.data_ptr = act + hdr + used;
    i_left = g_p->metadata.size_left = sz - hdr - used;
#ifndef NDEBUG
    g_p->metadata.n_pools = 1 + nn;
    g_p->metadata.global_n_allocs = i_na + (nn > 0 ? i_nna[0] : 0) + (nn > 1 ? i_nna[1] : 0);
#endif
    os_live = 1 + nn;
}
static bool others_same(int except) { /* headers of all regions but one (-1 main) */
    bool ok = true;
    if (except != -1) ok = ok && g_p->metadata.pool_size == i_ps && g_p->metadata.pool_n_allocs == i_na;
    for (int i = 0; i < g_nn; i++) if (except != i) ok = ok && g_n[i]->pool_size == i_nps[i] && g_n[i]->pool_n_allocs == i_nna[i];
    return ok;
}
//@ name=C13.linear.alloc props=C13,C29 h=h_alloc fn=umf_ba_linear_alloc ptrint=1 cases=3 unwind=5
//@+ assume="the number of further regions is 0, 1 or 2 in the debug build, whose self-check counts them; the function itself only uses the newest"
void h_alloc(void) {
    mk(VP_CASE);
    uint64_t size = vp_u64("size");
    char *p = umf_ba_linear_alloc(g_p, size);
    uint64_t al = (size + 7) & ~(uint64_t)7;
    umf_ba_linear_pool_t *q = g_p;
    CHECK("the lock is released", vp_locks_held == 0);
    if (!p) {
        CHECK("a failed allocation changes nothing", others_same(-2) && q->metadata.data_ptr == i_data && q->metadata.size_left == i_left && q->next_pool == (g_nn ? g_n[0] : NULL) && os_live == 1 + g_nn);
        CHECK("it fails only for size 0, sizes too large, or when memory runs out", size == 0 || size > MAXSZ / 2 || vp_faults > 0);
        REACH("failed", size && vp_faults); REACH("zero", !size); REACH("too large", size > UINT64_MAX - 8);
        return;
    }
    CHECK("size 0 gives NULL", size != 0);
    CHECK("the pointer is word aligned and never inside a header", IMP(os_allocs == 0, p == i_data) && IMP(os_allocs == 1, p == os_ptr + sizeof(umf_ba_next_linear_pool_t)));
    CHECK("a new region is obtained only when the active one is too small", IFF(os_allocs == 1, i_left < al) && os_allocs <= 1);
    if (os_allocs == 0) {
        CHECK("the memory is the head of the free part", i_left >= size && q->metadata.data_ptr == p + al && q->metadata.size_left == i_left - al && al >= size);
        CHECK("it is counted in the active region", others_same(g_nn ? 0 : -1) && (g_nn ? g_n[0]->pool_n_allocs == i_nna[0] + 1 : q->metadata.pool_n_allocs == i_na + 1) && q->next_pool == (g_nn ? g_n[0] : NULL));
    } else {
        umf_ba_next_linear_pool_t *n = q->next_pool;
        CHECK("the new region is linked in front of the others", (char *)n == os_ptr && n->next_pool == (g_nn ? g_n[0] : NULL) && n->pool_size == os_size && n->pool_n_allocs == 1 && others_same(-2));
        CHECK("the memory lies inside the new region", os_size >= sizeof(*n) + size);
        CHECK("the free part is the rest of the new region", q->metadata.data_ptr == p + al && q->metadata.size_left == os_size - sizeof(*n) - al);
    }
    REACH("from the active region", os_allocs == 0); REACH("from a new region", os_allocs == 1 && size > 100000);
}
//@ name=C13.linear.free props=C13,C29 h=h_free fn=umf_ba_linear_free,umf_ba_linear_pool_contains_pointer ptrint=1 cases=9 unwind=5 bounded="at most two further regions"
void h_free(void) {
    static const int NN[] = {0, 0, 1, 1, 1, 2, 2, 2, 2}, WHERE[] = {0, 9, 0, 1, 9, 0, 1, 2, 9};
    int nn = NN[VP_CASE], w = WHERE[VP_CASE];
    mk(nn);
    uint64_t size = w == 0 ? i_ps : w == 9 ? g_page : i_nps[w - 1], hdr = w == 0 ? sizeof(*g_p) : sizeof(*g_n[0]);
    char foreign;
    char *base = w == 0 ? (char *)g_p : w == 9 ? &foreign : (char *)g_n[w - 1];
    uint64_t off = vp_u64("offset of the block");
    ASSUME(off < size && (w == 9 || off >= hdr));
    if (w == 9) off = 0;
    char *ptr = base + off;
    if (w != 9) ASSUME((w == 0 ? i_na : i_nna[w - 1]) > 0); /* the block is allocated */
    size_t rest = umf_ba_linear_pool_contains_pointer(g_p, ptr);
    CHECK("a pointer into a region is recognised, with the bytes up to the region's end", rest == (w == 9 ? 0 : size - off));
    CHECK("the lock is released", vp_locks_held == 0);
    int r = umf_ba_linear_free(g_p, ptr);
    CHECK("the lock is released", vp_locks_held == 0);
    CHECK("a free never moves the free part", g_p->metadata.data_ptr == i_data && g_p->metadata.size_left == i_left);
    CHECK("0 exactly for memory of this pool", (r == 0) == (w != 9) && (r == 0 || r == -1));
    CHECK("no memory is requested", os_allocs == 0);
    if (w == 9) {
        CHECK("a foreign pointer changes nothing", others_same(-2) && os_frees == 0);
        REACH("foreign", r == -1);
    } else if (w == 0) {
        bool shrink = i_na == 1 && nn > 0 && i_ps > g_page;
        CHECK("only the main region's count changes", g_p->metadata.pool_n_allocs == i_na - 1 && g_p->next_pool == (nn ? g_n[0] : NULL));
        for (int i = 0; i < nn; i++) CHECK("other regions are untouched", g_n[i]->pool_size == i_nps[i] && g_n[i]->pool_n_allocs == i_nna[i]);
        CHECK("all but the first page is given back when nothing else is in use there", IFF(os_frees == 1, shrink) && os_frees <= 1 && IMP(shrink, of_ptr[0] == U((char *)g_p + g_page) && of_size[0] == i_ps - g_page && g_p->metadata.pool_size == g_page));
        CHECK("else its size is kept", IMP(!shrink, g_p->metadata.pool_size == i_ps));
        if (nn) REACH("shrunk", shrink);
        REACH("counted", !shrink);
    } else {
        int k = w - 1;
        bool gone = i_nna[k] == 1 && k > 0;
        CHECK("a region is given back, whole, once its last block is freed, unless it is the active one", IFF(os_frees == 1, gone) && os_frees <= 1 && IMP(gone, of_ptr[0] == U(g_n[k]) && of_size[0] == i_nps[k] && g_n[0]->next_pool == NULL));
        CHECK("else the block is counted out", IMP(!gone, g_n[k]->pool_n_allocs == i_nna[k] - 1 && g_n[k]->pool_size == i_nps[k] && IMP(nn == 2, g_n[0]->next_pool == g_n[1])));
        CHECK("the other regions are untouched", g_p->metadata.pool_size == i_ps && g_p->metadata.pool_n_allocs == i_na && g_p->next_pool == g_n[0] && IMP(nn == 2, g_n[1 - k]->pool_size == i_nps[1 - k] && g_n[1 - k]->pool_n_allocs == i_nna[1 - k]));
        if (k) REACH("given back", gone);
        REACH("counted out", !gone);
    }
}
//@ name=C13.linear.destroy props=C13 h=h_destroy fn=umf_ba_linear_destroy ptrint=1 cases=3 unwind=5 bounded="at most two further regions"
void h_destroy(void) {
    mk(VP_CASE);
    vp_mutexes = 1;
    env_proxy = vp_bool("in the proxy library");
    umf_ba_linear_destroy(g_p);
    CHECK("inside the proxy library the pool is kept", IMP(env_proxy, os_frees == 0 && vp_mutexes == 1));
    if (!env_proxy) {
        CHECK("every region is given back once, with its size", os_frees == 1 + g_nn && of_ptr[g_nn] == U(g_p) && of_size[g_nn] == i_ps && IMP(g_nn > 0, of_ptr[0] == U(g_n[0]) && of_size[0] == i_nps[0]) && IMP(g_nn > 1, of_ptr[1] == U(g_n[1]) && of_size[1] == i_nps[1]));
        CHECK("the lock is destroyed", vp_mutexes == 0);
    }
    REACH("destroyed", !env_proxy); REACH("kept", env_proxy);
}
