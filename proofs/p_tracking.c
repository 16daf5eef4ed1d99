/* Contracts of src/provider/provider_tracking.c (C10 lookup, C11 wrapping, C17 handles).
 *
 * The address maps are represented by the contract of critnib (C09): per level the
 * nearest entry at or below the address asked about. The answers are arbitrary up to
 * the tracker's invariant (segments of level i+1 lie in segments of level i, which
 * count them), so every proof holds for any number of tracked allocations. */
#define VP_BA
#define VP_LOCKS
#include "vp.h"
#include <assert.h>
#include <stdio.h>
#include <umf/memory_pool.h>
#include <umf/memory_provider.h>
#include <umf/memory_provider_ops.h>
#include "base_alloc.h"
#include "base_alloc_global.h"
#include "critnib.h"
#include "ipc_cache.h"
#include "ipc_internal.h"
#include "memory_pool_internal.h"
#include "provider_tracking.h"
#include "utils_common.h"

#define NL 8
#define U(p) ((uint64_t)(uintptr_t)(p))
/* ---- the other modules, as contracts ---------------------------------------------- */
struct critnib { int level; };
static critnib c_lvl[NL], c_ipcseg, c_cache;
static int cn_live, cn_deleted;
critnib *critnib_new(void);
void critnib_delete(critnib *c);
/* answers for up to two addresses */
static uint64_t q_addr[2]; static int q_n;
static bool q_fnd[2][NL]; static uint64_t q_key[2][NL]; static void *q_val[2][NL];
static int ins_n, ins_level[3], ins_upd[3], ins_ret[3]; static uint64_t ins_key[3]; static void *ins_val[3];
static int rem_n, rem_level; static uint64_t rem_key;
static bool seg_has; static uint64_t seg_key; static void *seg_val; static int seg_ins, seg_rem;
static bool cac_has; static uint64_t cac_key; static void *cac_val; static int cac_ins, cac_rem; static bool cac_race;
static int which(uint64_t a) { if (q_n > 1 && a == q_addr[1]) return 1; CHECK("only the given addresses are looked up", a == q_addr[0]); return 0; }
int critnib_find(critnib *c, uintptr_t key, enum find_dir_t dir, uintptr_t *rkey, void **rval) {
    if (c == &c_ipcseg) {
        CHECK("the mapping at or below is asked for", dir == FIND_LE);
        if (seg_has && seg_key <= key) { *rkey = seg_key; *rval = seg_val; return 1; }
        return 0;
    }
    if (q_n == 0 && dir == FIND_G) return 0; /* an empty map */
    int t = which(key), l = c->level;
    CHECK("the segment at or below is asked for", dir == FIND_LE);
    if (!q_fnd[t][l]) return 0;
    *rkey = q_key[t][l]; *rval = q_val[t][l];
    return 1;
}
int critnib_insert(critnib *c, uintptr_t key, void *val, int update) {
    if (c == &c_ipcseg) {
        if (seg_has && seg_key == key) return EEXIST;
        if (vp_fail("map insertion fails")) return ENOMEM;
        seg_has = true; seg_key = key; seg_val = val; seg_ins++; return 0;
    }
    if (c == &c_cache) {
        CHECK("cached handles are not replaced", !update);
        if (cac_race) { cac_race = false; cac_has = true; cac_key = key; return EEXIST; } /* another thread was faster */
        if (vp_fail("map insertion fails")) return ENOMEM;
        cac_has = true; cac_key = key; cac_val = val; cac_ins++; return 0;
    }
    CHECK("bounded number of insertions", ins_n < 3);
    int i = ins_n++; ins_level[i] = c->level; ins_key[i] = key; ins_val[i] = val; ins_upd[i] = update;
    if (update) { CHECK("only an existing segment is replaced", ins_ret[i] == 0 && q_fnd[which(key)][c->level] && q_key[which(key)][c->level] == key); q_val[which(key)][c->level] = val; return 0; }
    if (q_n > 0 && key == q_addr[0] && q_fnd[0][c->level] && q_key[0][c->level] == key) return ins_ret[i] = EEXIST;
    if (vp_fail("map insertion fails")) return ins_ret[i] = ENOMEM;
    return ins_ret[i] = 0;
}
void *critnib_remove(critnib *c, uintptr_t key) {
    if (c == &c_ipcseg) { if (!seg_has || seg_key != key) return NULL; seg_has = false; seg_rem++; return seg_val; }
    if (c == &c_cache) { if (!cac_has || cac_key != key) return NULL; cac_has = false; cac_rem++; return cac_val; }
    int t = which(key);
    if (!q_fnd[t][c->level] || q_key[t][c->level] != key) return NULL;
    rem_n++; rem_level = c->level; rem_key = key; q_fnd[t][c->level] = false;
    return q_val[t][c->level];
}
void *critnib_get(critnib *c, uintptr_t key) {
    if (c == &c_ipcseg) return seg_has && seg_key == key ? seg_val : NULL;
    CHECK("the cache of handles is asked", c == &c_cache);
    return cac_has && cac_key == key ? cac_val : NULL;
}
static int cn_new_n; static critnib cn_pool[NL + 2];
critnib *critnib_new(void) { if (vp_fail("map creation fails")) return NULL; cn_live++; return &cn_pool[cn_new_n++]; }
void critnib_delete(critnib *c) { CHECK("only an existing map is deleted", c != NULL); cn_live--; }

struct umf_ba_pool_t { int id; };
static umf_ba_pool_t ba_info, ba_ipc, ba_pools[2];
static int bp_live, bp_pools; static void *bp_freed[3]; static int bp_nfreed;
static void *bp_last;
void *umf_ba_alloc(umf_ba_pool_t *p);
void umf_ba_free(umf_ba_pool_t *p, void *x) { (void)p; bp_live--; CHECK("bounded number of releases", bp_nfreed < 3); bp_freed[bp_nfreed++] = x; free(x); }
umf_ba_pool_t *umf_ba_create(size_t s) { (void)s; if (vp_fail("chunk pool creation fails")) return NULL; return &ba_pools[bp_pools++ & 1]; }
void umf_ba_destroy(umf_ba_pool_t *p) { CHECK("only an existing chunk pool is destroyed", p != NULL && bp_pools > 0); bp_pools--; }

/* the wrapped provider */
enum { OP_NONE, OP_ALLOC, OP_FREE, OP_ERR, OP_REC, OP_MIN, OP_NAME, OP_PL, OP_PF, OP_MERGE, OP_SPLIT, OP_IS, OP_IG, OP_IP, OP_IO, OP_IC };
static int u_n, u_op[4], u_cnt[16]; static uint64_t u_a[4][3]; static umf_result_t u_res[4]; static uint64_t u_ptr, u_size; static const char *u_name;
static char up_prov;
static umf_result_t up(umf_memory_provider_handle_t h, int op, uint64_t a, uint64_t b, uint64_t c) {
    CHECK("only the wrapped provider is called", U(h) == U(&up_prov));
    CHECK("bounded number of calls", u_n < 4);
    int i = u_n++; u_op[i] = op; u_a[i][0] = a; u_a[i][1] = b; u_a[i][2] = c; u_cnt[op]++;
    if (vp_fail("provider call fails")) return u_res[i] = (umf_result_t)vp_range("provider error", 1, 8);
    return u_res[i] = UMF_RESULT_SUCCESS;
}
umf_result_t umfMemoryProviderAlloc(umf_memory_provider_handle_t h, size_t s, size_t al, void **p) { umf_result_t r = up(h, OP_ALLOC, s, al, 0); if (!r) *p = (void *)(uintptr_t)u_ptr; return r; }
static bool merge_ok = true;
umf_result_t umfMemoryProviderFree(umf_memory_provider_handle_t h, void *p, size_t s) { return up(h, OP_FREE, U(p), s, 0); }
void umfMemoryProviderGetLastNativeError(umf_memory_provider_handle_t h, const char **m, int32_t *e) { up(h, OP_ERR, U(m), U(e), 0); }
umf_result_t umfMemoryProviderGetRecommendedPageSize(umf_memory_provider_handle_t h, size_t s, size_t *ps) { return up(h, OP_REC, s, U(ps), 0); }
umf_result_t umfMemoryProviderGetMinPageSize(umf_memory_provider_handle_t h, void *p, size_t *ps) { return up(h, OP_MIN, U(p), U(ps), 0); }
const char *umfMemoryProviderGetName(umf_memory_provider_handle_t h) { up(h, OP_NAME, 0, 0, 0); return u_name; }
umf_result_t umfMemoryProviderPurgeLazy(umf_memory_provider_handle_t h, void *p, size_t s) { return up(h, OP_PL, U(p), s, 0); }
umf_result_t umfMemoryProviderPurgeForce(umf_memory_provider_handle_t h, void *p, size_t s) { return up(h, OP_PF, U(p), s, 0); }
umf_result_t umfMemoryProviderAllocationSplit(umf_memory_provider_handle_t h, void *p, size_t t, size_t f) { return up(h, OP_SPLIT, U(p), t, f); }
umf_result_t umfMemoryProviderAllocationMerge(umf_memory_provider_handle_t h, void *l, void *hi, size_t t) {
    umf_result_t r = up(h, OP_MERGE, U(l), U(hi), t);
    if (!merge_ok) return u_res[u_n - 1] = UMF_RESULT_ERROR_INVALID_ARGUMENT;
    return r;
}
umf_result_t umfMemoryProviderGetIPCHandleSize(umf_memory_provider_handle_t h, size_t *s) { umf_result_t r = up(h, OP_IS, 0, 0, 0); if (!r) *s = u_size; return r; }
static unsigned char u_data[8];
umf_result_t umfMemoryProviderGetIPCHandle(umf_memory_provider_handle_t h, const void *p, size_t s, void *d) { umf_result_t r = up(h, OP_IG, U(p), s, 0); if (!r) for (uint64_t i = 0; i < 8; i++) if (i < u_size) ((unsigned char *)d)[i] = u_data[i]; return r; }
static unsigned char put_data; static bool put_check;
umf_result_t umfMemoryProviderPutIPCHandle(umf_memory_provider_handle_t h, void *d) { if (put_check) put_data = *(unsigned char *)d; return up(h, OP_IP, U(d), 0, 0); }
umf_result_t umfMemoryProviderOpenIPCHandle(umf_memory_provider_handle_t h, void *d, void **p) { umf_result_t r = up(h, OP_IO, U(d), 0, 0); if (!r) *p = (void *)(uintptr_t)u_ptr; return r; }
umf_result_t umfMemoryProviderCloseIPCHandle(umf_memory_provider_handle_t h, void *p, size_t s) { return up(h, OP_IC, U(p), s, 0); }
static umf_memory_provider_handle_t cr_out; static const umf_memory_provider_ops_t *cr_ops; static int cr_n;
static void *cr_priv;
umf_result_t umfMemoryProviderCreate(const umf_memory_provider_ops_t *ops, void *params, umf_memory_provider_handle_t *out) {
    cr_n++; cr_ops = ops;
    if (vp_fail("provider creation fails")) return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    umf_result_t r = ops->initialize(params, &cr_priv);
    if (r == UMF_RESULT_SUCCESS) *out = (umf_memory_provider_handle_t)&cr_out;
    return r;
}
/* the cache of opened handles */
struct ipc_opened_cache_t { int x; };
static struct ipc_opened_cache_t oc; static int oc_live, oc_get, oc_rel; static ipc_opened_cache_value_t oc_val; static ipc_opened_cache_key_t oc_key; static uint64_t oc_id; static ipc_opened_cache_eviction_cb_t oc_cb; static ipc_opened_cache_value_t *oc_released;
ipc_opened_cache_handle_t umfIpcOpenedCacheCreate(ipc_opened_cache_eviction_cb_t cb) { if (vp_fail("cache creation fails")) return NULL; oc_live++; oc_cb = cb; return &oc; }
void umfIpcOpenedCacheDestroy(ipc_opened_cache_handle_t c) { CHECK("only an existing cache is destroyed", c == &oc && oc_live == 1); oc_live--; }
umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t c, const ipc_opened_cache_key_t *key, uint64_t id, ipc_opened_cache_value_t **out) {
    CHECK("the provider's own cache is used", c == &oc);
    oc_key = *key; oc_id = id;
    if (vp_fail("cache lookup fails")) return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    oc_get++; *out = &oc_val;
    return UMF_RESULT_SUCCESS;
}
umf_result_t umfIpcHandleMappedCacheRelease(ipc_opened_cache_value_t *v) { if (!v) return UMF_RESULT_ERROR_INVALID_ARGUMENT; oc_rel++; oc_released = v; return UMF_RESULT_SUCCESS; }
bool g_proxy;
char *utils_env_var_get_str(const char *v, const char *x) { (void)v, (void)x; return g_proxy ? (char *)x : NULL; }
umf_memory_tracker_handle_t TRACKER;

#define memcpy v_memcpy
static void *v_memcpy(void *d, const void *s, size_t n);
#include "provider_tracking.c"
static void *v_memcpy(void *d, const void *s, size_t n) { CHECK("bounded copies", n <= 8); for (size_t i = 0; i < 8; i++) if (i < n) ((char *)d)[i] = ((const char *)s)[i]; return d; }

void *umf_ba_alloc(umf_ba_pool_t *p) {
    if (vp_fail("chunk allocation fails")) return NULL;
    bp_live++;
    return bp_last = p == &ba_ipc ? vp_malloc(sizeof(tracker_ipc_info_t)) : vp_malloc(sizeof(tracker_alloc_info_t));
}
/* ---- the tracker's state ------------------------------------------------------------ */
static struct umf_memory_tracker_t g_tr;
static umf_memory_pool_t g_pool, g_opool;
static umf_tracking_memory_provider_t g_tp;
static uint64_t s_size[2][NL], s_ch[2][NL]; static umf_memory_pool_handle_t s_pool[2][NL];
static int deep[2]; /* deepest level whose segment contains the address, -1: none */
static bool contains(int t, int l) { return q_fnd[t][l] && q_addr[t] < q_key[t][l] + s_size[t][l]; }
static void point(int t) {
    q_addr[t] = vp_range("address", 1, UINT64_MAX);
    deep[t] = -1;
    for (int l = 0; l < NL; l++) {
        q_fnd[t][l] = vp_bool("a segment lies at or below");
        q_key[t][l] = vp_range("its start", 1, q_addr[t]);
        s_size[t][l] = vp_range("its size", 1, UINT64_MAX);
        ASSUME(s_size[t][l] <= UINT64_MAX - q_key[t][l]);
        s_ch[t][l] = vp_range("its children", 0, 1000);
        s_pool[t][l] = vp_bool("of this pool") ? &g_pool : &g_opool;
        tracker_alloc_info_t *v = vp_malloc(sizeof *v);
        v->pool = s_pool[t][l]; v->size = s_size[t][l]; v->n_children = s_ch[t][l];
        q_val[t][l] = v;
        /* invariant: segments of a level lie in segments of the level below, which count them; level 7 has no children */
        if (l == NL - 1) ASSUME(s_ch[t][l] == 0);
        if (contains(t, l)) {
            if (l > 0) ASSUME(contains(t, l - 1) && s_ch[t][l - 1] > 0 && q_key[t][l] >= q_key[t][l - 1] && q_key[t][l] + s_size[t][l] <= q_key[t][l - 1] + s_size[t][l - 1]);
            deep[t] = l;
        }
    }
}
static void setup(int points) {
    vp_ba_reset(); vp_locks_reset(); vp_steps = vp_faults = 0; vp_fault_mode = 0;
    ins_n = rem_n = u_n = bp_nfreed = cac_ins = cac_rem = seg_ins = seg_rem = oc_get = oc_rel = 0; bp_live = 0; cac_race = false; put_check = false; merge_ok = true;
    for (int i = 0; i < 3; i++) ins_ret[i] = 0;
    for (int i = 0; i < 16; i++) u_cnt[i] = 0;
    for (int l = 0; l < NL; l++) { c_lvl[l].level = l; g_tr.alloc_segments_map[l] = &c_lvl[l]; }
    g_tr.alloc_info_allocator = &ba_info; g_tr.ipc_info_allocator = &ba_ipc; g_tr.ipc_segments_map = &c_ipcseg;
    TRACKER = &g_tr;
    g_tp.hUpstream = (umf_memory_provider_handle_t)&up_prov; g_tp.hTracker = &g_tr; g_tp.pool = &g_pool; g_tp.ipcCache = &c_cache; g_tp.hIpcMappedCache = &oc; oc_live = 1;
    q_n = points;
    cac_has = seg_has = false;
    for (int t = 0; t < points; t++) point(t);
}
#define V(t, l) ((tracker_alloc_info_t *)q_val[t][l])
/* segment l of point t is as it was (and still in the map) */
static bool same(int t, int l) { return IMP(q_fnd[t][l], V(t, l)->pool == s_pool[t][l] && V(t, l)->size == s_size[t][l] && V(t, l)->n_children == s_ch[t][l]); }
#define ALL_SAME(t, except, skip2) do { for (int l = 0; l < NL; l++) if (l != (except) && l != (skip2)) CHECK("every other tracked allocation is as it was", same(t, l)); } while (0)

//@ name=C10.lookup props=C10 h=h_get fn=umfMemoryTrackerGetAllocInfo,umfMemoryTrackerGetPool unwind=17
//@+ assume="critnib_find(FIND_LE) returns the nearest entry at or below (C09)" assume="; tracked sizes are positive and no segment wraps around the address space"
void h_get(void) {
    setup(1);
    bool null = vp_bool("NULL address"), notr = vp_bool("no tracker");
    if (notr) TRACKER = NULL;
    umf_alloc_info_t info = {(void *)&up_prov, 77, NULL};
    umf_result_t r = umfMemoryTrackerGetAllocInfo(null ? NULL : (void *)(uintptr_t)q_addr[0], &info);
    int d = deep[0];
    CHECK("an address inside tracked memory is found, any other is not", IMP(!null && !notr, r == (d >= 0 ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_INVALID_ARGUMENT)));
    CHECK("NULL is rejected, and so is a missing tracker", IMP(null, r == UMF_RESULT_ERROR_INVALID_ARGUMENT) && IMP(!null && notr, r == UMF_RESULT_ERROR_NOT_SUPPORTED));
    CHECK("the innermost allocation containing the address is reported", IMP(r == UMF_RESULT_SUCCESS, U(info.base) == q_key[0][d] && info.baseSize == s_size[0][d] && info.pool == s_pool[0][d]));
    CHECK("a failed lookup reports nothing", IMP(r != UMF_RESULT_SUCCESS, info.base == (void *)&up_prov && info.baseSize == 77));
    umf_memory_pool_handle_t h = umfMemoryTrackerGetPool(null ? NULL : (void *)(uintptr_t)q_addr[0]);
    CHECK("the owner reported is that of the innermost allocation, else none", h == (r == UMF_RESULT_SUCCESS ? s_pool[0][d] : NULL));
    CHECK("a lookup changes nothing", ins_n == 0 && rem_n == 0); ALL_SAME(0, -1, -1);
    REACH("outermost", d == 0 && r == 0); REACH("innermost", d == 7 && r == 0); REACH("none", d < 0 && !null && !notr); REACH("with children elsewhere", d == 2 && s_ch[0][2] > 0 && r == 0);
}
#define ADD_POSTS(n) do { int d_ = deep[0]; \
    CHECK("the new allocation is registered one level below the innermost one containing it", ins_n == 1 && ins_level[0] == d_ + 1 && ins_key[0] == q_addr[0] && !ins_upd[0]); \
    tracker_alloc_info_t *v_ = ins_val[0]; \
    CHECK("registered with exactly its pool and size", v_->pool == &g_pool && v_->size == (n) && v_->n_children == 0 && bp_live == 1 && v_ == bp_last); \
    CHECK("the enclosing allocation counts it", IMP(d_ >= 0, V(0, d_)->n_children == s_ch[0][d_] + 1 && V(0, d_)->size == s_size[0][d_] && V(0, d_)->pool == s_pool[0][d_])); \
    ALL_SAME(0, d_, -1); } while (0)
//@ name=C10.add props=C10 h=h_add fn=umfMemoryTrackerAdd,umfMemoryTrackerAddAtLevel unwind=17
void h_add(void) {
    setup(1);
    uint64_t n = vp_range("size", 1, UINT64_MAX); ASSUME(n <= UINT64_MAX - q_addr[0]);
    umf_result_t r = umfMemoryTrackerAdd(&g_tr, &g_pool, (void *)(uintptr_t)q_addr[0], n);
    int d = deep[0];
    bool over = d >= 0 && q_addr[0] + n > q_key[0][d] + s_size[0][d];
    CHECK("a region reaching beyond the allocation it starts in is rejected", IMP(over, r != UMF_RESULT_SUCCESS));
    CHECK("more than eight nested allocations are rejected", IMP(d == 7, r != UMF_RESULT_SUCCESS));
    CHECK("everything else is registered unless memory runs out", IMP(!over && d < 7, IFF(r == UMF_RESULT_SUCCESS, vp_faults == 0)));
    if (r == UMF_RESULT_SUCCESS) ADD_POSTS(n);
    else { CHECK("a failed registration leaves nothing behind", bp_live == 0 && rem_n == 0 && IMP(ins_n == 1, ins_ret[0] != 0)); ALL_SAME(0, -1, -1); }
    CHECK("out of memory is reported as such", IMP(vp_faults, r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY));
    REACH("top", r == 0 && d < 0); REACH("nested", r == 0 && d == 6); REACH("overlap", over); REACH("too deep", d == 7 && !over); REACH("oom", vp_faults == 1);
}
#define REMOVABLE (deep[0] >= 0 && q_key[0][deep[0]] == q_addr[0] && s_ch[0][deep[0]] == 0)
//@ name=C10.remove props=C10 h=h_remove fn=umfMemoryTrackerRemove,get_most_nested_alloc_segment unwind=17
void h_remove(void) {
    setup(1);
    int d = deep[0]; bool ok = REMOVABLE;
    void *val = d >= 0 ? q_val[0][d] : NULL;
    umf_result_t r = umfMemoryTrackerRemove(&g_tr, (void *)(uintptr_t)q_addr[0]);
    CHECK("exactly an innermost allocation starting at the address and enclosing no other is removed", IFF(r == UMF_RESULT_SUCCESS, ok));
    CHECK("it alone is removed and released", IMP(ok, rem_n == 1 && rem_level == d && rem_key == q_addr[0] && bp_nfreed == 1 && bp_freed[0] == val));
    CHECK("the enclosing allocation no longer counts it", IMP(ok && d > 0, V(0, d - 1)->n_children == s_ch[0][d - 1] - 1 && V(0, d - 1)->size == s_size[0][d - 1]));
    CHECK("a failed removal changes nothing", IMP(!ok, rem_n == 0 && bp_nfreed == 0)); ALL_SAME(0, ok ? d - 1 : -1, ok ? d : -1);
    CHECK("nothing is added", ins_n == 0);
    REACH("top", ok && d == 0); REACH("nested", ok && d == 5); REACH("not found", !ok && d < 0); REACH("has children", !ok && d > 0 && q_key[0][d] == q_addr[0]);
}
//@ name=C10.lifetime props=C10,C28,C29 h=h_tracker fn=umfMemoryTrackerCreate,umfMemoryTrackerDestroy unwind=17
void h_tracker(void) {
    setup(0); vp_mutex_init_may_fail = true; cn_live = cn_new_n = bp_pools = 0;
    umf_memory_tracker_handle_t t = umfMemoryTrackerCreate();
    CHECK("a tracker is created unless a step fails", IFF(t != NULL, vp_faults == 0));
    CHECK("a new tracker has a map for every level", IMP(t != NULL, cn_live == NL + 1 && bp_pools == 2 && vp_mutexes == 1 && vp_ba_live == 1));
    for (int i = 0; i < NL; i++) CHECK("the maps are distinct", IMP(t != NULL, t->alloc_segments_map[i] == &cn_pool[i]));
    CHECK("a failed creation releases everything", IMP(!t, cn_live == 0 && bp_pools == 0 && vp_mutexes == 0 && vp_ba_live == 0));
    REACH("created", t); REACH("late failure", !t && cn_new_n == NL); REACH("early failure", !t && cn_new_n == 0 && vp_steps > 1);
    if (t) {
        g_proxy = vp_bool("proxy library");
        q_n = 0;
        umfMemoryTrackerDestroy(t);
        CHECK("destroying releases everything (except under the proxy library)", IMP(!g_proxy, cn_live == 0 && bp_pools == 0 && vp_mutexes == 0 && vp_ba_live == 0));
    }
    umfMemoryTrackerDestroy(NULL);
}
/* ---- C11: the wrapper ---------------------------------------------------------------- */
//@ name=C11.alloc props=C11 h=h_alloc fn=trackingAlloc,umfMemoryTrackerAdd,umfMemoryTrackerAddAtLevel unwind=17
void h_alloc(void) {
    setup(1);
    uint64_t n = vp_range("size", 1, UINT64_MAX), al = vp_u64("alignment"); ASSUME(n <= UINT64_MAX - q_addr[0]);
    bool nothing = vp_bool("provider returns NULL");
    u_ptr = nothing ? 0 : q_addr[0];
    void *out = &up_prov;
    umf_result_t r = trackingAlloc(&g_tp, n, al, &out);
    CHECK("the request reaches the provider unchanged", u_op[0] == OP_ALLOC && u_cnt[OP_ALLOC] == 1 && u_a[0][0] == n && u_a[0][1] == al);
    CHECK("its failure is returned and nothing is registered", IMP(u_res[0] != UMF_RESULT_SUCCESS || nothing, r == u_res[0] && ins_n == 0 && out == NULL && u_n == 1));
    if (u_res[0] == UMF_RESULT_SUCCESS && !nothing) {
        CHECK("an allocation is handed out exactly if it is registered", IFF(r == UMF_RESULT_SUCCESS, ins_n == 1 && ins_ret[0] == 0));
        if (r == UMF_RESULT_SUCCESS) { CHECK("the provider's memory is returned", U(out) == q_addr[0] && u_n == 1); ADD_POSTS(n); }
        else {
            CHECK("memory that cannot be registered goes back to the provider, and the caller gets none", out == NULL && u_n == 2 && u_op[1] == OP_FREE && u_a[1][0] == q_addr[0] && u_a[1][1] == n && bp_live == 0);
            ALL_SAME(0, -1, -1);
        }
    }
    REACH("allocated", r == 0 && out); REACH("unregistered", r && u_n == 2); REACH("provider failed", u_res[0] != 0); REACH("null", nothing && !r);
}
//@ name=C11.free props=C11,C28 h=h_free fn=trackingFree,umfMemoryTrackerRemove,get_most_nested_alloc_segment,umfMemoryTrackerAdd unwind=17
void h_free(void) {
    setup(1);
    uint64_t n = vp_range("size", 1, UINT64_MAX);
    bool null = vp_bool("NULL"), cached = vp_bool("an IPC handle is cached");
    int d = deep[0]; bool ok = REMOVABLE && !null;
    ASSUME(IMP(ok, n == s_size[0][d])); /* freed with the size it was allocated with */
    void *val = ok ? q_val[0][d] : NULL;
    uint64_t a = null ? 0 : q_addr[0];
    if (cached) { ipc_cache_value_t *c = umf_ba_global_alloc(sizeof(ipc_cache_value_t) + 8); if (!c) cached = false; else { cac_has = true; cac_key = a; cac_val = c; } }
    vp_faults = 0; bp_nfreed = 0;
    umf_result_t r = trackingFree(&g_tp, (void *)(uintptr_t)a, n);
    int f = cached;
    CHECK("the provider frees exactly the given memory", u_n == 1 + f && u_op[f] == OP_FREE && u_a[f][0] == a && u_a[f][1] == n);
    CHECK("its answer is returned", r == u_res[f]);
    CHECK("the registration is removed before the provider can reuse the memory", IMP(ok, rem_n == 1 && rem_level == d && bp_nfreed >= 1 && bp_freed[0] == val) && IMP(!ok, rem_n == 0));
    CHECK("a cached handle goes back to the provider and is forgotten", IMP(cached, u_op[0] == OP_IP && cac_rem == 1 && !cac_has) && vp_ba_live == 0);
    CHECK("memory the provider kept is registered again exactly as before, unless memory runs out",
          IMP(ok && r != UMF_RESULT_SUCCESS, IMP(ins_n == 1 && ins_ret[0] == 0, ins_level[0] == d && ins_key[0] == a && ((tracker_alloc_info_t *)ins_val[0])->size == n && ((tracker_alloc_info_t *)ins_val[0])->pool == &g_pool) && IMP(ins_n == 0 || ins_ret[0] != 0, vp_faults > 1)) && IMP(!ok || r == UMF_RESULT_SUCCESS, ins_n == 0));
    CHECK("the enclosing allocation counts its remaining children", IMP(ok && d > 0, V(0, d - 1)->n_children == s_ch[0][d - 1] - (ins_n == 1 && ins_ret[0] == 0 ? 0 : 1)));
    ALL_SAME(0, ok ? d - 1 : -1, ok ? d : -1);
    REACH("freed", ok && !r && cached); REACH("kept", ok && r && ins_n == 1); REACH("untracked", !ok && !r && !null); REACH("null", null);
}
static ipc_cache_value_t *put_in_cache(uint64_t a) { ipc_cache_value_t *c = vp_malloc(sizeof(ipc_cache_value_t) + 8); vp_ba_live++; cac_has = true; cac_key = a; cac_val = c; return c; }
//@ name=C11.split props=C11,C29 h=h_split fn=trackingAllocationSplit,get_most_nested_alloc_segment,umfMemoryTrackerAddAtLevel unwind=17
void h_split(void) {
    setup(1); vp_lock_may_fail = true;
    uint64_t tot = vp_u64("total size"), first = vp_u64("first size");
    ASSUME(first > 0 && first < tot); /* checked by umfMemoryProviderAllocationSplit (C14) */
    int d = deep[0]; bool ok = REMOVABLE && tot == s_size[0][d < 0 ? 0 : d];
    void *val = d >= 0 ? q_val[0][d] : NULL;
    bool cached = vp_bool("an IPC handle is cached");
    if (cached) put_in_cache(q_addr[0]);
    umf_result_t r = trackingAllocationSplit(&g_tp, (void *)(uintptr_t)q_addr[0], tot, first);
    int ups = u_cnt[OP_SPLIT];
    CHECK("memory that is not tracked with this size is rejected before the provider is called", IMP(!ok, r != UMF_RESULT_SUCCESS && u_n == 0));
    CHECK("the provider splits exactly the given memory", ups <= 1 && IMP(ups, u_op[0] == OP_SPLIT && u_a[0][0] == q_addr[0] && u_a[0][1] == tot && u_a[0][2] == first));
    CHECK("it succeeds unless the provider fails or memory runs out", IMP(ok && vp_faults == 0, r == UMF_RESULT_SUCCESS));
    bool handle_put = cached && u_cnt[OP_IP] == 1;
    CHECK("the split succeeds exactly if every step but the return of an old handle did", IMP(ok, IFF(r == UMF_RESULT_SUCCESS, vp_faults == (handle_put && u_res[1] != 0))));
    if (r == UMF_RESULT_SUCCESS) {
        tracker_alloc_info_t *lo = q_val[0][d], *hi = ins_val[1];
        CHECK("both parts are registered at the same level", ins_n == 2 && ins_level[0] == d && ins_key[0] == q_addr[0] && ins_upd[0] && ins_level[1] == d && ins_key[1] == q_addr[0] + first && !ins_upd[1]);
        CHECK("with exactly their sizes, for this pool", lo != val && lo->size == first && lo->pool == &g_pool && lo->n_children == 0 && hi->size == tot - first && hi->pool == &g_pool && hi->n_children == 0);
        CHECK("the old registration is released", bp_nfreed == 1 && bp_freed[0] == val && bp_live == 1);
        CHECK("the enclosing allocation counts one more", IMP(d > 0, V(0, d - 1)->n_children == s_ch[0][d - 1] + 1));
        CHECK("a handle of the whole allocation is no longer handed out", IMP(cached, !cac_has && u_op[1] == OP_IP) && vp_ba_live == 0);
        ALL_SAME(0, d - 1, d);
    } else {
        CHECK("a failed split leaves the registration as it was", bp_live == 0 && rem_n == 0 && IMP(d >= 0, q_val[0][d] == val) && cac_rem == 0);
        CHECK("and the provider's memory in one piece", IMP(ups && u_res[0] == UMF_RESULT_SUCCESS, u_n == 2 && u_op[1] == OP_MERGE && u_a[1][0] == q_addr[0] && u_a[1][1] == q_addr[0] + first && u_a[1][2] == tot));
        ALL_SAME(0, -1, -1);
    }
    CHECK("LOCK no lock stays held", vp_locks_held == 0);
    REACH("split", r == 0 && d > 0 && cached); REACH("rejected", !ok && !vp_faults); REACH("undone", r && u_cnt[OP_MERGE] == 1); REACH("no lock", r && vp_faults == 1 && vp_lock_ops == 0 && u_n == 0);
}
/* merging: invalid requests are an assertion failure in debug builds, an error otherwise */
//@ name=C11.merge props=C11,C29 h=h_merge fn=trackingAllocationMerge,get_most_nested_alloc_segment unwind=17 defs=-DNDEBUG timeout=300
//@+ assume="an upstream provider does not merge memory of two different allocations that enclose the parts"
void h_merge(void) {
    setup(2); vp_lock_may_fail = true;
    uint64_t lo = q_addr[0], hi = q_addr[1], tot = vp_u64("total size");
    ASSUME(lo < hi && tot > hi - lo); /* checked by umfMemoryProviderAllocationMerge (C14) */
    /* both addresses see the same map */
    for (int l = 0; l < NL; l++) {
        if (q_fnd[0][l]) ASSUME(q_fnd[1][l] && q_key[1][l] >= q_key[0][l]);
        if (q_fnd[1][l] && q_key[1][l] <= lo) ASSUME(q_fnd[0][l] && q_key[0][l] == q_key[1][l]);
        if (q_fnd[0][l] && q_fnd[1][l]) {
            if (q_key[0][l] == q_key[1][l]) { ASSUME(s_size[0][l] == s_size[1][l] && s_ch[0][l] == s_ch[1][l] && s_pool[0][l] == s_pool[1][l]); q_val[1][l] = q_val[0][l]; }
            else ASSUME(q_key[0][l] + s_size[0][l] <= q_key[1][l]);
        }
    }
    int dl = -1, dh = -1; /* innermost segments starting exactly at the addresses */
    int d0 = deep[0], d1 = deep[1];
    bool okl = d0 >= 0 && q_key[0][d0] == lo, okh = d1 >= 0 && q_key[1][d1] == hi;
    if (okl) dl = d0;
    if (okh) dh = d1;
    bool ok = okl && okh && dl == dh && s_pool[0][dl] == s_pool[1][dl] && s_size[0][dl] + s_size[1][dl] == tot;
    if (ok && dl > 0 && q_val[0][dl - 1] != q_val[1][dl - 1]) merge_ok = false;
    if (ok) ASSUME(s_pool[0][dl] == &g_pool);
    if (ok && dl > 0) ASSUME(s_ch[0][dl - 1] > 1 || !merge_ok); /* both parts are counted */
    void *lv = okl ? q_val[0][dl] : NULL, *hv = okh ? q_val[1][dh] : NULL;
    bool cached = vp_bool("an IPC handle is cached");
    if (cached) put_in_cache(vp_bool("of the lower part") ? lo : hi);
    umf_result_t r = trackingAllocationMerge(&g_tp, (void *)(uintptr_t)lo, (void *)(uintptr_t)hi, tot);
    CHECK("parts that are not tracked like this are rejected before the provider is called", IMP(!ok, r != UMF_RESULT_SUCCESS && u_n == 0));
    CHECK("the provider merges exactly the given parts", IMP(u_n, u_op[0] == OP_MERGE && u_cnt[OP_MERGE] == 1 && u_a[0][0] == lo && u_a[0][1] == hi && u_a[0][2] == tot));
    CHECK("it succeeds unless the provider fails or memory runs out", IMP(ok && merge_ok && vp_faults == 0, r == UMF_RESULT_SUCCESS));
    CHECK("the merge succeeds exactly if the provider's did", IMP(u_n, IFF(r == UMF_RESULT_SUCCESS, u_res[0] == UMF_RESULT_SUCCESS)));
    if (r == UMF_RESULT_SUCCESS) {
        tracker_alloc_info_t *m = q_val[0][dl];
        CHECK("one registration replaces both", ins_n == 1 && ins_level[0] == dl && ins_key[0] == lo && ins_upd[0] && rem_n == 1 && rem_level == dl && rem_key == hi);
        CHECK("with exactly the total size, for this pool, keeping the nested allocations", m != lv && m->size == tot && m->pool == &g_pool && m->n_children == s_ch[0][dl] + s_ch[1][dl]);
        CHECK("the old registrations are released", bp_nfreed == 2 && bp_freed[0] == lv && bp_freed[1] == hv && bp_live == -1);
        CHECK("the enclosing allocation counts one less", IMP(dl > 0, V(0, dl - 1)->n_children == s_ch[0][dl - 1] - 1));
        CHECK("handles of the parts are no longer handed out", IMP(cached, !cac_has && u_cnt[OP_IP] == 1) && vp_ba_live == 0);
        ALL_SAME(0, dl - 1, dl);
    } else {
        CHECK("a failed merge leaves the registrations as they were", bp_live == 0 && ins_n == 0 && rem_n == 0 && IMP(okl, q_val[0][dl] == lv) && cac_rem == 0);
        ALL_SAME(0, -1, -1); ALL_SAME(1, -1, -1);
    }
    CHECK("LOCK no lock stays held", vp_locks_held == 0);
    REACH("merged with children", r == 0 && s_ch[0][dl] > 0 && s_ch[1][dl] > 0); REACH("merged nested", r == 0 && dl > 1); REACH("rejected", !ok && !vp_faults); REACH("provider failed", ok && u_n == 1 && r);
}
//@ name=C11.forward props=C11 h=h_fwd fn=trackingGetLastError,trackingGetRecommendedPageSize,trackingGetMinPageSize,trackingPurgeLazy,trackingPurgeForce,trackingName,trackingGetIpcHandleSize unwind=17
void h_fwd(void) {
    setup(0);
    uint64_t op = vp_range("operation", 0, 6), p = vp_u64("pointer"), n = vp_u64("size");
    void *P = (void *)(uintptr_t)p; size_t ps = 5; u_size = vp_u64("handle size"); u_name = (const char *)(uintptr_t)vp_u64("name");
    umf_result_t r = UMF_RESULT_SUCCESS;
    const umf_memory_provider_ops_t *o = &UMF_TRACKING_MEMORY_PROVIDER_OPS;
    int want = 0; uint64_t x0 = p, x1 = n;
    switch (op) {
    case 0: o->get_last_native_error(&g_tp, (const char **)P, (int32_t *)(uintptr_t)n); want = OP_ERR; u_res[0] = r; break;
    case 1: r = o->get_recommended_page_size(&g_tp, n, (size_t *)P); want = OP_REC; x0 = n; x1 = p; break;
    case 2: r = o->get_min_page_size(&g_tp, P, (size_t *)(uintptr_t)n); want = OP_MIN; break;
    case 3: r = o->ext.purge_lazy(&g_tp, P, n); want = OP_PL; break;
    case 4: r = o->ext.purge_force(&g_tp, P, n); want = OP_PF; break;
    case 5: { const char *s = o->get_name(&g_tp); CHECK("the provider's name is returned", s == u_name); want = OP_NAME; x0 = x1 = 0; u_res[0] = r; break; }
    default: r = o->ipc.get_ipc_handle_size(&g_tp, &ps); want = OP_IS; x0 = x1 = 0; CHECK("the provider's handle size is returned", IMP(!r, ps == u_size)); break;
    }
    CHECK("the operation reaches the provider once with its arguments unchanged", u_n == 1 && u_op[0] == want && u_a[0][0] == x0 && u_a[0][1] == x1);
    CHECK("its result is returned", r == u_res[0]);
    REACH("last", op == 6 && !r);
}
//@ name=C11.create props=C11,C28,C16 h=h_create fn=umfTrackingMemoryProviderCreate,trackingInitialize,trackingFinalize,umfTrackingMemoryProviderGetUpstreamProvider unwind=17
void h_create(void) {
    setup(0); cn_live = cn_new_n = 0; oc_live = 0; cr_n = 0;
    bool notr = vp_bool("no tracker"), noup = vp_bool("no upstream");
    if (notr) TRACKER = NULL;
    umf_memory_provider_handle_t out = NULL;
    umf_result_t r = umfTrackingMemoryProviderCreate(noup ? NULL : (umf_memory_provider_handle_t)&up_prov, &g_pool, &out);
    CHECK("creation succeeds exactly if every step does", IFF(r == UMF_RESULT_SUCCESS, vp_faults == 0 && !notr && !noup));
    CHECK("a failed creation releases everything", IMP(r != UMF_RESULT_SUCCESS, out == NULL && cn_live == 0 && oc_live == 0 && vp_ba_live == 0));
    REACH("provider failed", r && cr_n == 1); REACH("no cache", r && cr_n == 0 && vp_steps == 2); REACH("invalid", noup && vp_faults == 0 && !notr);
    if (r == UMF_RESULT_SUCCESS) {
        umf_tracking_memory_provider_t *p = cr_priv;
        CHECK("the wrapper tracks for the given pool on the given provider", U(p->hUpstream) == U(&up_prov) && p->pool == &g_pool && p->hTracker == &g_tr && p->ipcCache == &cn_pool[0] && p->hIpcMappedCache == &oc && cr_ops == &UMF_TRACKING_MEMORY_PROVIDER_OPS);
        CHECK("mappings no longer in use are closed by the wrapper", oc_cb == ipcOpenedCacheEvictionCallback);
        umf_memory_provider_handle_t u = NULL;
        umfTrackingMemoryProviderGetUpstreamProvider((umf_memory_provider_handle_t)(void *)p, &u);
        CHECK("the wrapped provider is reported", U(u) == U(&up_prov));
        UMF_TRACKING_MEMORY_PROVIDER_OPS.finalize(p);
        CHECK("finalising releases everything", cn_live == 0 && oc_live == 0 && vp_ba_live == 0);
        REACH("created", 1);
    }
}
/* ---- C17: handles ---------------------------------------------------------------------- */
static struct { umf_ipc_data_t h; char data[8]; } g_ipc;
//@ name=C17.tracking_get props=C17,C28 h=h_ipcget fn=trackingGetIpcHandle,trackingPutIpcHandle unwind=17
void h_ipcget(void) {
    setup(0); put_check = true;
    uint64_t a = vp_range("base", 1, UINT64_MAX), n = vp_u64("size");
    u_size = vp_range("provider data size", 1, 8);
    for (int i = 0; i < 8; i++) u_data[i] = (unsigned char)vp_u64("provider data");
    uint64_t id0 = IPC_HANDLE_ID = vp_range("handles so far", 0, 1 << 30), cid = vp_u64("cached id");
    bool cached = vp_bool("already cached"), race = !cached && vp_bool("another thread caches it meanwhile");
    unsigned char cd = (unsigned char)vp_u64("cached data");
    if (cached || race) {
        ipc_cache_value_t *c = vp_malloc(sizeof(ipc_cache_value_t) + 8);
        c->handle_id = cid; c->ipcDataSize = u_size; for (int i = 0; i < 8; i++) c->providerIpcData[i] = (char)cd;
        cac_val = c; vp_ba_live++; cac_race = race;
        if (cached) { cac_has = true; cac_key = a; }
    }
    g_ipc.h.base = &g_pool; g_ipc.h.offset = 7;
    for (int i = 0; i < 8; i++) g_ipc.data[i] = 1;
    umf_result_t r = trackingGetIpcHandle(&g_tp, (void *)(uintptr_t)a, n, g_ipc.h.providerIpcData);
    bool raced = race && !cac_race;
    if (r == UMF_RESULT_SUCCESS) {
        for (uint64_t i = 0; i < 8; i++) {
            CHECK("the handle carries exactly the provider's data of this allocation", IMP(i < u_size, (unsigned char)g_ipc.data[i] == (cached || raced ? cd : u_data[i])));
            CHECK("nothing is written behind it", IMP(i >= u_size, g_ipc.data[i] == 1));
        }
        CHECK("all handles of one allocation have one identifier, new allocations get a new one", g_ipc.h.handle_id == (cached || raced ? cid : id0 + 1) && IMP(!cached && !raced, IPC_HANDLE_ID == id0 + 1));
        CHECK("a known handle is not requested again", IMP(cached, u_n == 0));
        CHECK("a new handle is requested for exactly the allocation and remembered", IMP(!cached, u_op[1] == OP_IG && u_a[1][0] == a && u_a[1][1] == n && cac_has && cac_key == a) && vp_ba_live == 1);
        CHECK("a handle made in vain goes back to the provider", IMP(raced, u_cnt[OP_IP] == 1 && put_data == u_data[0]) && IMP(!raced, u_cnt[OP_IP] == 0));
    } else {
        CHECK("on failure nothing is leaked or remembered", vp_ba_live == (cached || race) && cac_has == (cached || raced));
        CHECK("a handle the provider made goes back to it", u_cnt[OP_IP] == (u_n >= 2 && u_res[1] == UMF_RESULT_SUCCESS));
        CHECK("only failures of a step fail", vp_faults > 0);
    }
    CHECK("the other fields of the handle are left to the caller", g_ipc.h.base == &g_pool && g_ipc.h.offset == 7);
    CHECK("putting a handle keeps it for the next request", trackingPutIpcHandle(&g_tp, g_ipc.h.providerIpcData) == UMF_RESULT_SUCCESS && cac_rem == 0);
    REACH("cached", cached && !r); REACH("new", !cached && !race && !r); REACH("raced", raced && !r); REACH("insertion failed", r && u_cnt[OP_IP] == 1);
}
//@ name=C17.tracking_open props=C17,C18,C28,C29 h=h_ipcopen fn=trackingOpenIpcHandle,upstreamOpenIPCHandle,umfMemoryTrackerAddIpcSegment unwind=17
void h_ipcopen(void) {
    setup(0);
    g_ipc.h.base = (void *)(uintptr_t)vp_u64("remote base"); g_ipc.h.pid = vp_int("remote process"); g_ipc.h.baseSize = vp_u64("size"); g_ipc.h.handle_id = vp_u64("identifier");
    uint64_t m = vp_range("mapped address", 1, UINT64_MAX), nw = vp_range("new mapping", 1, UINT64_MAX);
    bool open = vp_bool("already open"), taken = vp_bool("address already registered");
    oc_val.mapped_base_ptr = open ? (void *)(uintptr_t)m : NULL; oc_val.mapped_size = open ? g_ipc.h.baseSize : 0;
    u_ptr = nw;
    if (taken) { seg_has = true; seg_key = nw; }
    g_pool.provider = (umf_memory_provider_handle_t)&cr_out;
    void *out = NULL;
    umf_result_t r = trackingOpenIpcHandle(&g_tp, g_ipc.h.providerIpcData, &out);
    const char *k = (const char *)&oc_key; (void)k;
    CHECK("the mapping is looked up by the handle's allocation, process and identifier", oc_key.remote_base_ptr == g_ipc.h.base && oc_key.remote_pid == g_ipc.h.pid && U(oc_key.local_provider) == U(&g_tp) && oc_id == g_ipc.h.handle_id);
    CHECK("an open mapping is shared, nothing is opened", IMP(open, u_n == 0 && IMP(r == UMF_RESULT_SUCCESS, U(out) == m)));
    CHECK("otherwise exactly the handle's data are opened once", IMP(!open && oc_get, u_cnt[OP_IO] == 1 && u_op[0] == OP_IO && u_a[0][0] == U(g_ipc.h.providerIpcData)));
    CHECK("opening succeeds exactly if every step does", IFF(r == UMF_RESULT_SUCCESS, vp_faults == 0 && (open || !taken)));
    if (r == UMF_RESULT_SUCCESS) {
        CHECK("the caller uses the mapping", oc_get == 1 && oc_rel == 0);
        if (!open) {
            tracker_ipc_info_t *i = seg_val;
            CHECK("the new mapping is returned and remembered with its size", U(out) == nw && U(oc_val.mapped_base_ptr) == nw && oc_val.mapped_size == g_ipc.h.baseSize);
            CHECK("it is registered for pointer lookups", seg_has && seg_key == nw && i->size == g_ipc.h.baseSize && U(i->provider) == U(&cr_out) && i->ipc_cache_value == &oc_val && bp_live == 1);
        }
    } else {
        CHECK("a failed open leaves no user behind", oc_rel == oc_get && IMP(oc_rel, oc_released == &oc_val));
        CHECK("nothing stays half open", out == NULL && seg_ins == 0 && bp_live == 0 && IMP(!open, oc_val.mapped_base_ptr == NULL) && u_cnt[OP_IC] == (u_n && u_res[0] == UMF_RESULT_SUCCESS) && IMP(u_cnt[OP_IC], u_op[1] == OP_IC && u_a[1][0] == nw && u_a[1][1] == g_ipc.h.baseSize));
    }
    CHECK("LOCK no lock stays held", vp_locks_held == 0);
    REACH("shared", open && !r); REACH("opened", !open && !r); REACH("not registered", r && u_cnt[OP_IC] == 1 && taken); REACH("provider failed", r && u_n == 1);
}
//@ name=C17.tracking_close props=C17,C18 h=h_ipcclose fn=trackingCloseIpcHandle,getTrackerIpcInfo,umfMemoryTrackerGetIpcInfo,ipcOpenedCacheEvictionCallback,umfMemoryTrackerRemoveIpcSegment unwind=17
void h_ipcclose(void) {
    setup(0);
    uint64_t a = vp_range("address", 1, UINT64_MAX);
    seg_has = vp_bool("a mapping lies at or below"); seg_key = vp_range("its start", 1, UINT64_MAX);
    tracker_ipc_info_t *i = vp_malloc(sizeof *i); bp_live = 1;
    uint64_t sz = i->size = vp_u64("its size"); ASSUME(sz <= UINT64_MAX - seg_key); i->provider = (umf_memory_provider_handle_t)&cr_out; i->ipc_cache_value = &oc_val; seg_val = i;
    umf_ipc_info_t info = {NULL, 0, NULL};
    umf_result_t r = umfMemoryTrackerGetIpcInfo((void *)(uintptr_t)a, &info);
    bool in = seg_has && seg_key <= a && a < seg_key + sz;
    CHECK("an address is found exactly if it lies in an opened mapping", r == (in ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_INVALID_ARGUMENT));
    CHECK("that mapping is reported", IMP(in, U(info.base) == seg_key && info.baseSize == sz && U(info.provider) == U(&cr_out)));
    CHECK("NULL is in no mapping", umfMemoryTrackerGetIpcInfo(NULL, &info) == UMF_RESULT_ERROR_INVALID_ARGUMENT);
    r = trackingCloseIpcHandle(&g_tp, (void *)(uintptr_t)a, sz);
    bool at = seg_has && seg_key == a;
    CHECK("closing ends exactly one use of the mapping at this address", at ? r == UMF_RESULT_SUCCESS && oc_rel == 1 && oc_released == &oc_val : r == UMF_RESULT_ERROR_INVALID_ARGUMENT && oc_rel == 0);
    CHECK("the mapping stays open", u_n == 0 && seg_rem == 0);
    REACH("closed", at); REACH("unknown", !at); REACH("inside", in && !at);
    /* eviction closes it */
    ipc_opened_cache_key_t key = {0}; key.local_provider = (umf_memory_provider_handle_t)(void *)&g_tp;
    bool mapped = vp_bool("was mapped");
    ipc_opened_cache_value_t v; v.mapped_base_ptr = mapped ? (void *)(uintptr_t)a : NULL; v.mapped_size = sz;
    ipcOpenedCacheEvictionCallback(&key, &v);
    CHECK("eviction closes exactly the evicted mapping", u_cnt[OP_IC] == mapped && IMP(mapped, u_a[0][0] == a && u_a[0][1] == sz));
    CHECK("and removes its registration", IMP(mapped && at, seg_rem == 1 && bp_live == 0) && IMP(!mapped || !at, seg_rem == 0 && bp_live == 1));
    REACH("evicted", mapped && at); REACH("never mapped", !mapped);
}
