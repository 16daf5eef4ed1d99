/* Contracts of src/memory_provider.c (C14 dispatch, C15 creation). */
#define VP_BA
#include "vp.h"
#include <umf/memory_provider.h>
#include <umf/memory_provider_ops.h>
#include "memory_provider_internal.h"
#include "libumf.h"

/* ---- ghost backend: records the one call it receives ---- */
enum { OP_NONE, OP_INIT, OP_FINI, OP_ALLOC, OP_FREE, OP_ERR, OP_REC, OP_MIN, OP_NAME, OP_PL, OP_PF, OP_MERGE, OP_SPLIT, OP_IS, OP_IG, OP_IP, OP_IO, OP_IC, OP_CTL };
int g_n, g_op;
uint64_t g_a[5];
umf_result_t g_res;
const char *g_str;
umf_memory_provider_handle_t g_last, o_last;
#define A(x) ((uint64_t)(uintptr_t)(x))
static void rec(int op, uint64_t a0, uint64_t a1, uint64_t a2, uint64_t a3, uint64_t a4) {
    g_n++; g_op = op; g_a[0] = a0; g_a[1] = a1; g_a[2] = a2; g_a[3] = a3; g_a[4] = a4;
}
static umf_result_t b_initialize(void *params, void **provider) {
    rec(OP_INIT, A(params), 0, 0, 0, 0);
    if (g_res == UMF_RESULT_SUCCESS) *provider = (void *)&g_n;
    return g_res;
}
static void b_finalize(void *p) { rec(OP_FINI, A(p), 0, 0, 0, 0); }
static umf_result_t b_alloc(void *p, size_t s, size_t a, void **pp) { rec(OP_ALLOC, A(p), s, a, A(pp), 0); *pp = &g_a; return g_res; }
static umf_result_t b_free(void *p, void *q, size_t s) { rec(OP_FREE, A(p), A(q), s, 0, 0); return g_res; }
static void b_err(void *p, const char **m, int32_t *e) { rec(OP_ERR, A(p), A(m), A(e), 0, 0); }
static umf_result_t b_rec(void *p, size_t s, size_t *ps) { rec(OP_REC, A(p), s, A(ps), 0, 0); *ps = 4711; return g_res; }
static umf_result_t b_min(void *p, void *q, size_t *ps) { rec(OP_MIN, A(p), A(q), A(ps), 0, 0); *ps = 4711; return g_res; }
static const char *b_name(void *p) { rec(OP_NAME, A(p), 0, 0, 0, 0); return g_str; }
static umf_result_t b_pl(void *p, void *q, size_t s) { rec(OP_PL, A(p), A(q), s, 0, 0); return g_res; }
static umf_result_t b_pf(void *p, void *q, size_t s) { rec(OP_PF, A(p), A(q), s, 0, 0); return g_res; }
static umf_result_t b_merge(void *p, void *l, void *h, size_t s) { rec(OP_MERGE, A(p), A(l), A(h), s, 0); return g_res; }
static umf_result_t b_split(void *p, void *q, size_t t, size_t f) { rec(OP_SPLIT, A(p), A(q), t, f, 0); return g_res; }
static umf_result_t b_is(void *p, size_t *s) { rec(OP_IS, A(p), A(s), 0, 0, 0); *s = 4711; return g_res; }
static umf_result_t b_ig(void *p, const void *q, size_t s, void *d) { rec(OP_IG, A(p), A(q), s, A(d), 0); return g_res; }
static umf_result_t b_ip(void *p, void *d) { rec(OP_IP, A(p), A(d), 0, 0, 0); return g_res; }
static umf_result_t b_io(void *p, void *d, void **pp) { rec(OP_IO, A(p), A(d), A(pp), 0, 0); *pp = &g_a; return g_res; }
static umf_result_t b_ic(void *p, void *q, size_t s) { rec(OP_IC, A(p), A(q), s, 0, 0); return g_res; }
static umf_result_t b_ctl(void *p, int o, const char *n, void *a, umf_ctl_query_type_t t) { rec(OP_CTL, A(p), (uint64_t)(int64_t)o, A(n), A(a), (uint64_t)t); return g_res; }

static void full_ops(umf_memory_provider_ops_t *o) {
    o->version = vp_u32("ops.version");
    o->initialize = b_initialize; o->finalize = b_finalize; o->alloc = b_alloc; o->free = b_free;
    o->get_last_native_error = b_err; o->get_recommended_page_size = b_rec; o->get_min_page_size = b_min;
    o->get_name = b_name; o->ext.purge_lazy = b_pl; o->ext.purge_force = b_pf;
    o->ext.allocation_merge = b_merge; o->ext.allocation_split = b_split;
    o->ipc.get_ipc_handle_size = b_is; o->ipc.get_ipc_handle = b_ig; o->ipc.put_ipc_handle = b_ip;
    o->ipc.open_ipc_handle = b_io; o->ipc.close_ipc_handle = b_ic; o->ctl = b_ctl;
}
umf_memory_provider_handle_t *umfGetLastFailedMemoryProviderPtr(void) { return &g_last; }
void libumfInit(void) {}

#define GHOST g_n, g_op, __CPROVER_object_whole(g_a), g_last
#define PRIV(h) A((h)->provider_priv)
#define BAD(c) P_("invalid arguments are rejected without calling the backend", IMP(c, RET == UMF_RESULT_ERROR_INVALID_ARGUMENT && g_n == 0 && g_last == o_last))
#define CALLED(ok, OP, x1, x2, x3) IMP(ok, g_n == 1 && g_op == OP && g_a[0] == PRIV(h) && g_a[1] == A(x1) && g_a[2] == A(x2) && g_a[3] == A(x3))
#define POSTS_std(P, bad, OP, x1, x2, x3) \
    P("invalid arguments are rejected without calling the backend", IMP(bad, RET == UMF_RESULT_ERROR_INVALID_ARGUMENT && g_n == 0)) \
    P("exactly the matching backend operation is called once with the arguments unchanged", CALLED(!(bad), OP, x1, x2, x3)) \
    P("the backend result is returned", IMP(!(bad), RET == g_res))
#define POSTS_last(P, bad) \
    P("last failed provider is updated exactly on backend failure", g_last == ((!(bad) && g_res != UMF_RESULT_SUCCESS) ? h : o_last))
#define POSTS_nolast(P) P("last failed provider is untouched", g_last == o_last)

#define POSTS_umfMemoryProviderAlloc(P) POSTS_std(P, !h || !ptr, OP_ALLOC, size, alignment, ptr) POSTS_last(P, !h || !ptr)
umf_result_t umfMemoryProviderAlloc(umf_memory_provider_handle_t h, size_t size, size_t alignment, void **ptr)
    ASG(GHOST; ptr != NULL : *ptr) POSTS_umfMemoryProviderAlloc(ENSP);
#define POSTS_umfMemoryProviderFree(P) POSTS_std(P, !h, OP_FREE, ptr, size, 0) POSTS_last(P, !h)
umf_result_t umfMemoryProviderFree(umf_memory_provider_handle_t h, void *ptr, size_t size) ASG(GHOST) POSTS_umfMemoryProviderFree(ENSP);
#define POSTS_umfMemoryProviderGetRecommendedPageSize(P) POSTS_std(P, !h || !ps, OP_REC, size, ps, 0) POSTS_last(P, !h || !ps)
umf_result_t umfMemoryProviderGetRecommendedPageSize(umf_memory_provider_handle_t h, size_t size, size_t *ps) ASG(GHOST; ps != NULL : *ps) POSTS_umfMemoryProviderGetRecommendedPageSize(ENSP);
#define POSTS_umfMemoryProviderGetMinPageSize(P) POSTS_std(P, !h || !ps, OP_MIN, ptr, ps, 0) POSTS_last(P, !h || !ps)
umf_result_t umfMemoryProviderGetMinPageSize(umf_memory_provider_handle_t h, void *ptr, size_t *ps) ASG(GHOST; ps != NULL : *ps) POSTS_umfMemoryProviderGetMinPageSize(ENSP);
#define POSTS_umfMemoryProviderPurgeLazy(P) POSTS_std(P, !h || !ptr, OP_PL, ptr, size, 0) POSTS_last(P, !h || !ptr)
umf_result_t umfMemoryProviderPurgeLazy(umf_memory_provider_handle_t h, void *ptr, size_t size) ASG(GHOST) POSTS_umfMemoryProviderPurgeLazy(ENSP);
#define POSTS_umfMemoryProviderPurgeForce(P) POSTS_std(P, !h || !ptr, OP_PF, ptr, size, 0) POSTS_last(P, !h || !ptr)
umf_result_t umfMemoryProviderPurgeForce(umf_memory_provider_handle_t h, void *ptr, size_t size) ASG(GHOST) POSTS_umfMemoryProviderPurgeForce(ENSP);
#define SPLIT_BAD (!h || !ptr || firstSize == 0 || totalSize == 0 || firstSize >= totalSize)
#define POSTS_umfMemoryProviderAllocationSplit(P) POSTS_std(P, SPLIT_BAD, OP_SPLIT, ptr, totalSize, firstSize) POSTS_last(P, SPLIT_BAD)
umf_result_t umfMemoryProviderAllocationSplit(umf_memory_provider_handle_t h, void *ptr, size_t totalSize, size_t firstSize) ASG(GHOST) POSTS_umfMemoryProviderAllocationSplit(ENSP);
#define MERGE_BAD (!h || !lowPtr || !highPtr || totalSize == 0 || A(lowPtr) >= A(highPtr) || A(highPtr) - A(lowPtr) >= totalSize)
#define POSTS_umfMemoryProviderAllocationMerge(P) POSTS_std(P, MERGE_BAD, OP_MERGE, lowPtr, highPtr, totalSize) POSTS_last(P, MERGE_BAD)
umf_result_t umfMemoryProviderAllocationMerge(umf_memory_provider_handle_t h, void *lowPtr, void *highPtr, size_t totalSize) ASG(GHOST) POSTS_umfMemoryProviderAllocationMerge(ENSP);
#define POSTS_umfMemoryProviderGetIPCHandleSize(P) POSTS_std(P, !h || !ps, OP_IS, ps, 0, 0) POSTS_nolast(P)
umf_result_t umfMemoryProviderGetIPCHandleSize(umf_memory_provider_handle_t h, size_t *ps) ASG(GHOST; ps != NULL : *ps) POSTS_umfMemoryProviderGetIPCHandleSize(ENSP);
#define POSTS_umfMemoryProviderGetIPCHandle(P) POSTS_std(P, !h || !ptr || !data, OP_IG, ptr, size, data) POSTS_nolast(P)
umf_result_t umfMemoryProviderGetIPCHandle(umf_memory_provider_handle_t h, const void *ptr, size_t size, void *data) ASG(GHOST) POSTS_umfMemoryProviderGetIPCHandle(ENSP);
#define POSTS_umfMemoryProviderPutIPCHandle(P) POSTS_std(P, !h || !data, OP_IP, data, 0, 0) POSTS_nolast(P)
umf_result_t umfMemoryProviderPutIPCHandle(umf_memory_provider_handle_t h, void *data) ASG(GHOST) POSTS_umfMemoryProviderPutIPCHandle(ENSP);
#define POSTS_umfMemoryProviderOpenIPCHandle(P) POSTS_std(P, !h || !data || !pptr, OP_IO, data, pptr, 0) POSTS_nolast(P)
umf_result_t umfMemoryProviderOpenIPCHandle(umf_memory_provider_handle_t h, void *data, void **pptr) ASG(GHOST; pptr != NULL : *pptr) POSTS_umfMemoryProviderOpenIPCHandle(ENSP);
#define POSTS_umfMemoryProviderCloseIPCHandle(P) POSTS_std(P, !h || !ptr, OP_IC, ptr, size, 0) POSTS_nolast(P)
umf_result_t umfMemoryProviderCloseIPCHandle(umf_memory_provider_handle_t h, void *ptr, size_t size) ASG(GHOST) POSTS_umfMemoryProviderCloseIPCHandle(ENSP);
#define POSTS_umfMemoryProviderGetName(P) \
    P("NULL handle gives NULL", IMP(!h, RET == NULL && g_n == 0)) \
    P("the backend name is returned", IMP(h, g_n == 1 && g_op == OP_NAME && g_a[0] == PRIV(h) && RET == g_str)) POSTS_nolast(P)
const char *umfMemoryProviderGetName(umf_memory_provider_handle_t h) ASG(GHOST) POSTS_umfMemoryProviderGetName(ENSP);
#define POSTS_umfMemoryProviderGetPriv(P) \
    P("NULL handle gives NULL", IMP(!h, RET == NULL)) \
    P("the private data of this provider is returned", IMP(h, RET == h->provider_priv)) \
    P("the backend is not called", g_n == 0) POSTS_nolast(P)
void *umfMemoryProviderGetPriv(umf_memory_provider_handle_t h) ASG(GHOST) POSTS_umfMemoryProviderGetPriv(ENSP);
#define POSTS_umfMemoryProviderGetLastNativeError(P) \
    P("the backend is asked once with the arguments unchanged", g_n == 1 && g_op == OP_ERR && g_a[0] == PRIV(h) && g_a[1] == A(ppMessage) && g_a[2] == A(pError)) POSTS_nolast(P)
void umfMemoryProviderGetLastNativeError(umf_memory_provider_handle_t h, const char **ppMessage, int32_t *pError) REQ(h != NULL) ASG(GHOST) POSTS_umfMemoryProviderGetLastNativeError(ENSP);
#define POSTS_umfGetLastFailedMemoryProvider(P) P("the last failed provider is reported", RET == o_last && g_last == o_last && g_n == 0)
umf_memory_provider_handle_t umfGetLastFailedMemoryProvider(void) ASG(GHOST) POSTS_umfGetLastFailedMemoryProvider(ENSP);

#include "memory_provider.c"

static umf_memory_provider_t g_prov, g_other;
static umf_memory_provider_handle_t setup(void) {
    full_ops(&g_prov.ops);
    g_prov.provider_priv = (void *)(uintptr_t)vp_u64("priv");
    g_n = 0; g_op = OP_NONE;
    g_a[0] = g_a[1] = g_a[2] = g_a[3] = g_a[4] = 0;
    g_res = (umf_result_t)vp_u32("backend result");
    g_str = (const char *)(uintptr_t)vp_u64("backend name");
    o_last = g_last = vp_bool("has last") ? (vp_bool("last is other") ? &g_other : &g_prov) : NULL;
    return vp_bool("handle") ? &g_prov : NULL;
}
static void *anyptr(const char *n) { (void)n; return (void *)(uintptr_t)vp_u64(n); }
#define REACH3(okc) REACH("rejected", vp_ret == UMF_RESULT_ERROR_INVALID_ARGUMENT && g_n == 0); REACH("success", vp_ret == UMF_RESULT_SUCCESS && g_n == 1); REACH("backend failure", vp_ret == UMF_RESULT_ERROR_UNKNOWN && g_n == 1)
static void *s_out; static size_t s_sz;
#define OUT (vp_bool("out") ? &s_out : NULL)
#define SZP (vp_bool("out") ? &s_sz : NULL)

//@ name=C14.umfMemoryProviderAlloc props=C14 h=h_alloc mode=dfcc enforce=umfMemoryProviderAlloc
void h_alloc(void) { umf_memory_provider_handle_t h = setup(); size_t size = vp_u64("size"), alignment = vp_u64("alignment"); void **ptr = OUT; umf_result_t vp_ret = umfMemoryProviderAlloc(h, size, alignment, ptr); VP_POSTS(POSTS_umfMemoryProviderAlloc); REACH3(); }
//@ name=C14.umfMemoryProviderFree props=C14 h=h_free mode=dfcc enforce=umfMemoryProviderFree
void h_free(void) { umf_memory_provider_handle_t h = setup(); size_t size = vp_u64("size"); void *ptr = anyptr("ptr"); umf_result_t vp_ret = umfMemoryProviderFree(h, ptr, size); VP_POSTS(POSTS_umfMemoryProviderFree); REACH3(); }
//@ name=C14.umfMemoryProviderGetRecommendedPageSize props=C14 h=h_rec mode=dfcc enforce=umfMemoryProviderGetRecommendedPageSize
void h_rec(void) { umf_memory_provider_handle_t h = setup(); size_t size = vp_u64("size"); size_t *ps = SZP; umf_result_t vp_ret = umfMemoryProviderGetRecommendedPageSize(h, size, ps); VP_POSTS(POSTS_umfMemoryProviderGetRecommendedPageSize); REACH3(); }
//@ name=C14.umfMemoryProviderGetMinPageSize props=C14 h=h_min mode=dfcc enforce=umfMemoryProviderGetMinPageSize
void h_min(void) { umf_memory_provider_handle_t h = setup(); void *ptr = anyptr("ptr"); size_t *ps = SZP; umf_result_t vp_ret = umfMemoryProviderGetMinPageSize(h, ptr, ps); VP_POSTS(POSTS_umfMemoryProviderGetMinPageSize); REACH3(); }
//@ name=C14.umfMemoryProviderPurgeLazy props=C14 h=h_pl mode=dfcc enforce=umfMemoryProviderPurgeLazy
void h_pl(void) { umf_memory_provider_handle_t h = setup(); size_t size = vp_u64("size"); void *ptr = anyptr("ptr"); umf_result_t vp_ret = umfMemoryProviderPurgeLazy(h, ptr, size); VP_POSTS(POSTS_umfMemoryProviderPurgeLazy); REACH3(); }
//@ name=C14.umfMemoryProviderPurgeForce props=C14 h=h_pf mode=dfcc enforce=umfMemoryProviderPurgeForce
void h_pf(void) { umf_memory_provider_handle_t h = setup(); size_t size = vp_u64("size"); void *ptr = anyptr("ptr"); umf_result_t vp_ret = umfMemoryProviderPurgeForce(h, ptr, size); VP_POSTS(POSTS_umfMemoryProviderPurgeForce); REACH3(); }
//@ name=C14.umfMemoryProviderAllocationSplit props=C14 h=h_split mode=dfcc enforce=umfMemoryProviderAllocationSplit
void h_split(void) { umf_memory_provider_handle_t h = setup(); size_t totalSize = vp_u64("totalSize"), firstSize = vp_u64("firstSize"); void *ptr = anyptr("ptr"); umf_result_t vp_ret = umfMemoryProviderAllocationSplit(h, ptr, totalSize, firstSize); VP_POSTS(POSTS_umfMemoryProviderAllocationSplit); REACH3(); }
//@ name=C14.umfMemoryProviderAllocationMerge props=C14 h=h_merge mode=dfcc enforce=umfMemoryProviderAllocationMerge
void h_merge(void) { umf_memory_provider_handle_t h = setup(); size_t totalSize = vp_u64("totalSize"); void *lowPtr = anyptr("low"), *highPtr = anyptr("high"); umf_result_t vp_ret = umfMemoryProviderAllocationMerge(h, lowPtr, highPtr, totalSize); VP_POSTS(POSTS_umfMemoryProviderAllocationMerge); REACH3(); }
//@ name=C14.umfMemoryProviderGetIPCHandleSize props=C14 h=h_is mode=dfcc enforce=umfMemoryProviderGetIPCHandleSize
void h_is(void) { umf_memory_provider_handle_t h = setup(); size_t *ps = SZP; umf_result_t vp_ret = umfMemoryProviderGetIPCHandleSize(h, ps); VP_POSTS(POSTS_umfMemoryProviderGetIPCHandleSize); REACH3(); }
//@ name=C14.umfMemoryProviderGetIPCHandle props=C14 h=h_ig mode=dfcc enforce=umfMemoryProviderGetIPCHandle
void h_ig(void) { umf_memory_provider_handle_t h = setup(); const void *ptr = anyptr("ptr"); size_t size = vp_u64("size"); void *data = anyptr("data"); umf_result_t vp_ret = umfMemoryProviderGetIPCHandle(h, ptr, size, data); VP_POSTS(POSTS_umfMemoryProviderGetIPCHandle); REACH3(); }
//@ name=C14.umfMemoryProviderPutIPCHandle props=C14 h=h_ip mode=dfcc enforce=umfMemoryProviderPutIPCHandle
void h_ip(void) { umf_memory_provider_handle_t h = setup(); void *data = anyptr("data"); umf_result_t vp_ret = umfMemoryProviderPutIPCHandle(h, data); VP_POSTS(POSTS_umfMemoryProviderPutIPCHandle); REACH3(); }
//@ name=C14.umfMemoryProviderOpenIPCHandle props=C14 h=h_io mode=dfcc enforce=umfMemoryProviderOpenIPCHandle
void h_io(void) { umf_memory_provider_handle_t h = setup(); void *data = anyptr("data"); void **pptr = OUT; umf_result_t vp_ret = umfMemoryProviderOpenIPCHandle(h, data, pptr); VP_POSTS(POSTS_umfMemoryProviderOpenIPCHandle); REACH3(); }
//@ name=C14.umfMemoryProviderCloseIPCHandle props=C14 h=h_ic mode=dfcc enforce=umfMemoryProviderCloseIPCHandle
void h_ic(void) { umf_memory_provider_handle_t h = setup(); void *ptr = anyptr("ptr"); size_t size = vp_u64("size"); umf_result_t vp_ret = umfMemoryProviderCloseIPCHandle(h, ptr, size); VP_POSTS(POSTS_umfMemoryProviderCloseIPCHandle); REACH3(); }
//@ name=C14.umfMemoryProviderGetName props=C14 h=h_name mode=dfcc enforce=umfMemoryProviderGetName
void h_name(void) { umf_memory_provider_handle_t h = setup(); const char *vp_ret = umfMemoryProviderGetName(h); VP_POSTS(POSTS_umfMemoryProviderGetName); REACH("named", g_n == 1); REACH("rejected", g_n == 0); }
//@ name=C14.umfMemoryProviderGetPriv props=C14 h=h_priv mode=dfcc enforce=umfMemoryProviderGetPriv
void h_priv(void) { umf_memory_provider_handle_t h = setup(); void *vp_ret = umfMemoryProviderGetPriv(h); VP_POSTS(POSTS_umfMemoryProviderGetPriv); REACH("priv", vp_ret != NULL); }
//@ name=C14.umfMemoryProviderGetLastNativeError props=C14 h=h_err mode=dfcc enforce=umfMemoryProviderGetLastNativeError
void h_err(void) { umf_memory_provider_handle_t h = setup(); ASSUME(h != NULL); const char **ppMessage = (const char **)anyptr("msg"); int32_t *pError = (int32_t *)anyptr("err"); umfMemoryProviderGetLastNativeError(h, ppMessage, pError); VP_POSTS(POSTS_umfMemoryProviderGetLastNativeError); REACH("called", g_n == 1); }
//@ name=C14.umfGetLastFailedMemoryProvider props=C14 h=h_last mode=dfcc enforce=umfGetLastFailedMemoryProvider
void h_last(void) { setup(); umf_memory_provider_handle_t vp_ret = umfGetLastFailedMemoryProvider(); VP_POSTS(POSTS_umfGetLastFailedMemoryProvider); REACH("some", vp_ret == &g_other); }

/* ---- C15: creation -------------------------------------------------------- */
static umf_memory_provider_ops_t s_ops, o_ops;
#define OPT(f) do { if (vp_bool("has " #f)) s_ops.f = NULL; } while (0)
static bool man_ok(void) {
    return o_ops.alloc && o_ops.free && o_ops.get_recommended_page_size && o_ops.get_min_page_size && o_ops.initialize &&
           o_ops.finalize && o_ops.get_last_native_error && o_ops.get_name;
}
static int cnt_ipc(void) {
    return (o_ops.ipc.get_ipc_handle_size != NULL) + (o_ops.ipc.get_ipc_handle != NULL) + (o_ops.ipc.put_ipc_handle != NULL) +
           (o_ops.ipc.open_ipc_handle != NULL) + (o_ops.ipc.close_ipc_handle != NULL);
}
static bool table_ok(void) {
    return man_ok() && (o_ops.ext.allocation_split != NULL) == (o_ops.ext.allocation_merge != NULL) && (cnt_ipc() == 0 || cnt_ipc() == 5);
}
static bool same_mandatory(const umf_memory_provider_ops_t *a) {
    return a->version == o_ops.version && a->initialize == o_ops.initialize && a->finalize == o_ops.finalize && a->alloc == o_ops.alloc && a->free == o_ops.free &&
           a->get_last_native_error == o_ops.get_last_native_error && a->get_recommended_page_size == o_ops.get_recommended_page_size &&
           a->get_min_page_size == o_ops.get_min_page_size && a->get_name == o_ops.get_name;
}
#define KEPT(f) (o_ops.f == NULL || a->f == o_ops.f)
static bool kept_optional(const umf_memory_provider_ops_t *a) {
    return KEPT(ext.purge_lazy) && KEPT(ext.purge_force) && KEPT(ext.allocation_merge) && KEPT(ext.allocation_split) && KEPT(ipc.get_ipc_handle_size) &&
           KEPT(ipc.get_ipc_handle) && KEPT(ipc.put_ipc_handle) && KEPT(ipc.open_ipc_handle) && KEPT(ipc.close_ipc_handle) && KEPT(ctl);
}
//@ name=C15.umfMemoryProviderCreate props=C15,C28 h=h_create fn=umfMemoryProviderCreate,validateOps,assignOpsExtDefaults,assignOpsIpcDefaults
void h_create(void) {
    setup(); vp_ba_reset();
    full_ops(&s_ops);
    OPT(initialize); OPT(finalize); OPT(alloc); OPT(free); OPT(get_last_native_error); OPT(get_recommended_page_size);
    OPT(get_min_page_size); OPT(get_name); OPT(ext.purge_lazy); OPT(ext.purge_force); OPT(ext.allocation_merge);
    OPT(ext.allocation_split); OPT(ipc.get_ipc_handle_size); OPT(ipc.get_ipc_handle); OPT(ipc.put_ipc_handle);
    OPT(ipc.open_ipc_handle); OPT(ipc.close_ipc_handle); OPT(ctl);
    o_ops = s_ops;
    umf_memory_provider_handle_t sentinel = &g_other, out = sentinel, *pout = vp_bool("out") ? &out : NULL;
    const umf_memory_provider_ops_t *pops = vp_bool("ops") ? &s_ops : NULL;
    void *params = anyptr("params");
    umf_result_t r = umfMemoryProviderCreate(pops, params, pout);
    bool bad = !pops || !pout || !table_ok();
    CHECK("incomplete or inconsistent tables and NULL arguments are rejected before the backend is touched", IMP(bad, r == UMF_RESULT_ERROR_INVALID_ARGUMENT && g_n == 0 && vp_ba_live == 0));
    CHECK("a complete table is never rejected as invalid", IMP(!bad && r == UMF_RESULT_ERROR_INVALID_ARGUMENT, g_n == 1 && g_res == r));
    CHECK("backend initialised at most once with the given parameters", IMP(!bad && vp_ba_fails == 0, g_n == 1 && g_op == OP_INIT && g_a[0] == A(params)));
    CHECK("out of memory is reported and nothing is initialised", IMP(!bad && vp_ba_fails > 0, r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY && g_n == 0));
    CHECK("the backend's failure is returned", IMP(!bad && vp_ba_fails == 0, r == g_res));
    CHECK("on failure nothing is published or leaked", IMP(r != UMF_RESULT_SUCCESS, out == sentinel && vp_ba_live == 0));
    CHECK("the caller's table is not modified", same_mandatory(&s_ops) && s_ops.ctl == o_ops.ctl && s_ops.ext.purge_lazy == o_ops.ext.purge_lazy && s_ops.ipc.get_ipc_handle == o_ops.ipc.get_ipc_handle && s_ops.ext.allocation_split == o_ops.ext.allocation_split);
    REACH("created", r == UMF_RESULT_SUCCESS); REACH("init failed", r != UMF_RESULT_SUCCESS && g_n == 1); REACH("oom", vp_ba_fails == 1); REACH("rejected", bad);
    if (r == UMF_RESULT_SUCCESS) {
        CHECK("the provider has the backend's private data", out && out != sentinel && vp_ba_live == 1 && out->provider_priv == (void *)&g_n);
        CHECK("every mandatory operation is the caller's", same_mandatory(&out->ops));
        CHECK("every given optional operation is the caller's", kept_optional(&out->ops));
        /* missing operations answer "not supported" and call nothing */
        g_n = 0;
        umf_memory_provider_ops_t *a = &out->ops;
        size_t sz = 7; void *pp = &sz; char buf[4];
        umf_result_t ns = UMF_RESULT_ERROR_NOT_SUPPORTED;
#define MISSING(f, call) if (!o_ops.f) { CHECK("missing operation " #f " has a default", a->f != NULL); umf_result_t q = a->f call; CHECK("missing operation " #f " reports not supported", q == ns && g_n == 0 && sz == 7 && pp == &sz); REACH("default " #f, q == ns); }
        MISSING(ext.purge_lazy, (out->provider_priv, &sz, 8)) MISSING(ext.purge_force, (out->provider_priv, &sz, 8))
        MISSING(ext.allocation_split, (out->provider_priv, &sz, 8, 4)) MISSING(ext.allocation_merge, (out->provider_priv, &sz, &sz, 8))
        MISSING(ipc.get_ipc_handle_size, (out->provider_priv, &sz)) MISSING(ipc.get_ipc_handle, (out->provider_priv, &sz, 8, buf))
        MISSING(ipc.put_ipc_handle, (out->provider_priv, buf)) MISSING(ipc.open_ipc_handle, (out->provider_priv, buf, &pp))
        MISSING(ipc.close_ipc_handle, (out->provider_priv, &sz, 8)) MISSING(ctl, (out->provider_priv, 0, "x", buf, CTL_QUERY_READ))
        umfMemoryProviderDestroy(out);
        CHECK("destroying finalises the backend once and releases the provider", g_n == 1 && g_op == OP_FINI && g_a[0] == A(&g_n) && vp_ba_live == 0);
    }
}
//@ name=C15.umfMemoryProviderDestroy.null props=C15 h=h_destroy_null fn=umfMemoryProviderDestroy
void h_destroy_null(void) { setup(); vp_ba_reset(); umfMemoryProviderDestroy(NULL); CHECK("destroying NULL does nothing", g_n == 0 && vp_ba_live == 0); REACH("returns", g_n == 0); }
//@ name=C26.provider.by_handle props=C26 h=h_ctl fn=by_handle_provider
void h_ctl(void) {
    setup();
    char dummy[4], nm[8];
    umf_ctl_query_type_t qt = (umf_ctl_query_type_t)vp_range("query type", 0, 2);
    int r = CTL_NODE(provider)[0].cb[CTL_QUERY_SUBTREE](&g_prov, CTL_QUERY_PROGRAMMATIC, dummy, NULL, nm, qt);
    CHECK("the provider's control handler is called once with its own data and the query unchanged",
          g_n == 1 && g_op == OP_CTL && g_a[0] == A(g_prov.provider_priv) && g_a[2] == A(nm) && g_a[3] == A(dummy) && g_a[4] == (uint64_t)qt);
    CHECK("the result of the control handler is returned", IFF(r == 0, g_res == UMF_RESULT_SUCCESS));
    REACH("called", g_n == 1);
}
