/* Contracts of the disjoint pool's parameter objects and shared limits (C27). */
#define VP_BA
#define VP_LOCKS
#include "vp.h"
#include "pool_disjoint_internal.h"
#include "utils_common.c"
#include "pool_disjoint.c"
void libumfInit(void) {}
static bool g_destroyed;
bool umf_ba_global_is_destroyed(void) { return g_destroyed; }

typedef umf_disjoint_pool_params_t par_t;
static bool same(const par_t *a, const par_t *b, int but) {
    bool ok = (but == 0 || a->slab_min_size == b->slab_min_size) && (but == 1 || a->max_poolable_size == b->max_poolable_size) && (but == 2 || a->capacity == b->capacity) && (but == 3 || a->min_bucket_size == b->min_bucket_size)
        && a->cur_pool_size == b->cur_pool_size && (but == 4 || a->pool_trace == b->pool_trace) && (but == 5 || a->shared_limits == b->shared_limits);
    if (but != 6) for (int i = 0; i < 64; i++) ok &= a->name[i] == b->name[i];
    return ok;
}
static par_t *made(void) {
    umf_disjoint_pool_params_handle_t h = NULL; vp_ba_reset(); vp_locks_reset(); vp_fault_mode = 1; vp_fail_at = 0; g_destroyed = false;
    umf_result_t r = umfDisjointPoolParamsCreate(&h); ASSUME(r == UMF_RESULT_SUCCESS);
    return h;
}
//@ name=C27.disjoint_scalar props=C27 h=h_scalar fn=umfDisjointPoolParamsCreate,umfDisjointPoolParamsDestroy,umfDisjointPoolParamsSetSlabMinSize,umfDisjointPoolParamsSetMaxPoolableSize,umfDisjointPoolParamsSetCapacity,umfDisjointPoolParamsSetMinBucketSize,umfDisjointPoolParamsSetTrace,umfDisjointPoolParamsSetSharedLimits unwind=70
void h_scalar(void) {
    par_t *h = made(), old;
    CHECK("a new object has the documented defaults", h->slab_min_size == 0 && h->max_poolable_size == 0 && h->capacity == 0 && h->min_bucket_size == UMF_DISJOINT_POOL_MIN_BUCKET_DEFAULT_SIZE && h->cur_pool_size == 0 && h->pool_trace == 0 && h->shared_limits == NULL && strcmp(h->name, "disjoint_pool") == 0);
    h->slab_min_size = vp_u64("slab size"); h->max_poolable_size = vp_u64("max poolable"); h->capacity = vp_u64("capacity"); h->min_bucket_size = vp_u64("min bucket"); h->pool_trace = vp_int("trace");
    old = *h; uint64_t v = vp_u64("value"); int t = vp_int("trace value"); static umf_disjoint_pool_shared_limits_t lim;
    umf_result_t r = umfDisjointPoolParamsSetSlabMinSize(h, v);
    CHECK("the slab size is stored, nothing else changes", r == 0 && h->slab_min_size == v && same(h, &old, 0)); old.slab_min_size = v;
    r = umfDisjointPoolParamsSetMaxPoolableSize(h, v);
    CHECK("the largest poolable size is stored, nothing else changes", r == 0 && h->max_poolable_size == v && same(h, &old, 1)); old.max_poolable_size = v;
    r = umfDisjointPoolParamsSetCapacity(h, v);
    CHECK("the capacity is stored, nothing else changes", r == 0 && h->capacity == v && same(h, &old, 2)); old.capacity = v;
    r = umfDisjointPoolParamsSetMinBucketSize(h, v);
    CHECK("the smallest size class is accepted exactly if it is a power of two", IFF(r == UMF_RESULT_SUCCESS, v != 0 && (v & (v - 1)) == 0) && IMP(r, r == UMF_RESULT_ERROR_INVALID_ARGUMENT));
    CHECK("it is stored if accepted, nothing else changes", h->min_bucket_size == (r ? old.min_bucket_size : v) && same(h, &old, 3)); REACH("rejected", r); REACH("accepted", !r); old.min_bucket_size = h->min_bucket_size;
    r = umfDisjointPoolParamsSetTrace(h, t);
    CHECK("the trace level is stored, nothing else changes", r == 0 && h->pool_trace == t && same(h, &old, 4)); old.pool_trace = t;
    r = umfDisjointPoolParamsSetSharedLimits(h, &lim);
    CHECK("the shared limits are stored, nothing else changes", r == 0 && h->shared_limits == &lim && same(h, &old, 5));
    CHECK("a missing object is rejected", umfDisjointPoolParamsSetSlabMinSize(NULL, v) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfDisjointPoolParamsSetMaxPoolableSize(NULL, v) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfDisjointPoolParamsSetCapacity(NULL, v) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfDisjointPoolParamsSetMinBucketSize(NULL, 8) == UMF_RESULT_ERROR_INVALID_ARGUMENT
        && umfDisjointPoolParamsSetTrace(NULL, t) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfDisjointPoolParamsSetSharedLimits(NULL, &lim) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfDisjointPoolParamsSetName(NULL, "n") == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfDisjointPoolParamsCreate(NULL) == UMF_RESULT_ERROR_INVALID_ARGUMENT);
    CHECK("destroying releases the object", vp_ba_live == 1 && umfDisjointPoolParamsDestroy(h) == 0 && vp_ba_live == 0);
    CHECK("destroying nothing is allowed", umfDisjointPoolParamsDestroy(NULL) == 0 && vp_ba_live == 0);
}
//@ name=C27.disjoint_oom props=C27,C05 h=h_oom fn=umfDisjointPoolParamsCreate,umfDisjointPoolSharedLimitsCreate,umfDisjointPoolSharedLimitsDestroy unwind=70
void h_oom(void) {
    par_t *h = made(); (void)h; umf_disjoint_pool_params_handle_t g = NULL;
    vp_steps = 0; vp_fail_at = 1; umf_result_t r = umfDisjointPoolParamsCreate(&g);
    CHECK("without memory no object is made", r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY && g == NULL && vp_ba_live == 1);
    vp_steps = 0; CHECK("without memory no limits are made", umfDisjointPoolSharedLimitsCreate(vp_u64("limit")) == NULL && vp_ba_live == 1);
    vp_fail_at = 0; uint64_t m = vp_u64("limit"); umf_disjoint_pool_shared_limits_handle_t l = umfDisjointPoolSharedLimitsCreate(m);
    CHECK("new limits hold the given maximum and nothing is used", l && l->max_size == m && l->total_size == 0);
    umfDisjointPoolSharedLimitsDestroy(l);
    CHECK("destroying the limits releases them", vp_ba_live == 1);
}
//@ name=C27.disjoint_name props=C27 h=h_name fn=umfDisjointPoolParamsSetName unwind=70 cases=12 bounded="names of 0, 1, 20, 62, 63 and 66 characters"
void h_name(void) {
    static const int lens[6] = {0, 1, 20, 62, 63, 66}; const int n = lens[VP_CASE % 6];
    par_t *h = made(), old; static char name[70], first[70];
    if (VP_CASE >= 6) { for (int i = 0; i < 50; i++) first[i] = 'f'; first[50] = 0; umfDisjointPoolParamsSetName(h, first); }
    old = *h;
    for (int i = 0; i < 70; i++) { char c = (char)vp_range("character", 1, 127); name[i] = i < n ? c : 0; }
    CHECK("a missing name is rejected", umfDisjointPoolParamsSetName(h, NULL) == UMF_RESULT_ERROR_INVALID_ARGUMENT && same(h, &old, -1));
    CHECK("a name is accepted", umfDisjointPoolParamsSetName(h, name) == UMF_RESULT_SUCCESS && same(h, &old, 6));
    bool eq = true; for (int i = 0; i < 64; i++) eq &= h->name[i] == (i < 63 && i < n ? name[i] : 0);
    CHECK("the name is stored, at most 63 characters, and terminated", eq);
}
