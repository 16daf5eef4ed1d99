/* Contracts of src/memory_pool.c (C16). */
#define VP_BA
#define VP_LOCKS
#include "vp.h"
#include <umf/memory_pool.h>
#include <umf/memory_pool_ops.h>
#include <umf/memory_provider.h>
#include <assert.h>
#include "provider_tracking.h"
#include "libumf.h"
#include "memory_pool_internal.h"
#include "ctl/ctl.h"

/* ---- ghost pool implementation: records the one call it receives ---- */
enum { OP_NONE, OP_INIT, OP_FINI, OP_MALLOC, OP_CALLOC, OP_REALLOC, OP_AMALLOC, OP_SIZE, OP_FREE, OP_ERR, OP_CTL };
int g_n, g_op;
uint64_t g_a[5];
void *g_ptr;
uint64_t g_sz;
umf_result_t g_res;
#define A(x) ((uint64_t)(uintptr_t)(x))
static void rec(int op, uint64_t a0, uint64_t a1, uint64_t a2, uint64_t a3, uint64_t a4) {
    g_n++; g_op = op; g_a[0] = a0; g_a[1] = a1; g_a[2] = a2; g_a[3] = a3; g_a[4] = a4;
}
static int g_init_while; /* live tracking providers when initialize was called */
static int t_live, t_created, t_destroyed_up, t_tracking_destroyed, g_fini_before;
static umf_result_t b_initialize(umf_memory_provider_handle_t prov, void *params, void **pool) {
    rec(OP_INIT, A(prov), A(params), 0, 0, 0);
    g_init_while = t_live;
    if (g_res == UMF_RESULT_SUCCESS) *pool = (void *)&g_n;
    return g_res;
}
static void b_finalize(void *p) { CHECK("the pool is finalised before its provider is destroyed", t_destroyed_up == 0 && t_tracking_destroyed == 0); rec(OP_FINI, A(p), 0, 0, 0, 0); }
static void *b_malloc(void *p, size_t s) { rec(OP_MALLOC, A(p), s, 0, 0, 0); return g_ptr; }
static void *b_calloc(void *p, size_t n, size_t s) { rec(OP_CALLOC, A(p), n, s, 0, 0); return g_ptr; }
static void *b_realloc(void *p, void *q, size_t s) { rec(OP_REALLOC, A(p), A(q), s, 0, 0); return g_ptr; }
static void *b_amalloc(void *p, size_t s, size_t a) { rec(OP_AMALLOC, A(p), s, a, 0, 0); return g_ptr; }
static size_t b_size(void *p, void *q) { rec(OP_SIZE, A(p), A(q), 0, 0, 0); return g_sz; }
static umf_result_t b_free(void *p, void *q) { rec(OP_FREE, A(p), A(q), 0, 0, 0); return g_res; }
static umf_result_t b_err(void *p) { rec(OP_ERR, A(p), 0, 0, 0, 0); return g_res; }
static umf_result_t b_ctl(void *p, int o, const char *n, void *a, umf_ctl_query_type_t t) { rec(OP_CTL, A(p), (uint64_t)(int64_t)o, A(n), A(a), (uint64_t)t); return g_res; }
static void full_ops(umf_memory_pool_ops_t *o) {
    o->version = vp_u32("ops.version");
    o->initialize = b_initialize; o->finalize = b_finalize; o->malloc = b_malloc; o->calloc = b_calloc; o->realloc = b_realloc;
    o->aligned_malloc = b_amalloc; o->malloc_usable_size = b_size; o->free = b_free; o->get_last_allocation_error = b_err;
    o->ctl = b_ctl;
}
/* ---- contracts of the other modules ---- */
void libumfInit(void) {}
/* providers are opaque here: identified by their addresses */
static char up_prov, tr_prov, other_prov, tr_priv;
static umf_memory_pool_handle_t t_pool;
umf_result_t umfTrackingMemoryProviderCreate(umf_memory_provider_handle_t up, umf_memory_pool_handle_t pool, umf_memory_provider_handle_t *out) {
    t_created++;
    CHECK("the given provider is wrapped", A(up) == A(&up_prov));
    t_pool = pool;
    if (vp_fail("tracking provider fails")) return (umf_result_t)vp_range("tracking error", 1, 8);
    t_live++;
    *out = (umf_memory_provider_handle_t)&tr_prov;
    return UMF_RESULT_SUCCESS;
}
static umf_memory_provider_handle_t t_up;
void umfTrackingMemoryProviderGetUpstreamProvider(umf_memory_provider_handle_t priv, umf_memory_provider_handle_t *up) {
    CHECK("the wrapper is asked for its upstream provider", A(priv) == A(&tr_priv) && t_tracking_destroyed == 0);
    *up = t_up;
}
void *umfMemoryProviderGetPriv(umf_memory_provider_handle_t h) { CHECK("only the live wrapper's data are used", A(h) == A(&tr_prov) && t_tracking_destroyed == 0); return &tr_priv; }
void umfMemoryProviderDestroy(umf_memory_provider_handle_t h) {
    if (A(h) == A(&tr_prov)) { CHECK("the wrapper is destroyed once", t_tracking_destroyed == 0); t_tracking_destroyed++; t_live--; }
    else if (A(h) == A(&up_prov)) { CHECK("the wrapper is destroyed before the provider it wraps", t_live == 0); t_destroyed_up++; }
    else CHECK("no other provider is destroyed", 0);
}
static umf_memory_pool_handle_t tr_answer; static uint64_t tr_asked; static int tr_n;
umf_memory_pool_handle_t umfMemoryTrackerGetPool(const void *p) { tr_n++; tr_asked = A(p); return tr_answer; }

/* ---- contracts ---- */
#define GHOST g_n, g_op, __CPROVER_object_whole(g_a)
#define POSTS_fwd(P, OP, bad, badret, goodret, x1, x2) \
    P("a NULL pool is rejected without calling anything", IMP(!h, RET == badret && g_n == 0)) \
    P("exactly the matching operation of the given pool is called once with the arguments unchanged", IMP(h != NULL, g_n == 1 && g_op == OP && g_a[0] == A(h->pool_priv) && g_a[1] == A(x1) && g_a[2] == A(x2))) \
    P("its result is returned", IMP(h != NULL, RET == goodret))
#define POSTS_umfPoolMalloc(P) POSTS_fwd(P, OP_MALLOC, 0, NULL, g_ptr, size, 0)
void *umfPoolMalloc(umf_memory_pool_handle_t h, size_t size) ASG(GHOST) POSTS_umfPoolMalloc(ENSP);
#define POSTS_umfPoolAlignedMalloc(P) POSTS_fwd(P, OP_AMALLOC, 0, NULL, g_ptr, size, alignment)
void *umfPoolAlignedMalloc(umf_memory_pool_handle_t h, size_t size, size_t alignment) ASG(GHOST) POSTS_umfPoolAlignedMalloc(ENSP);
#define POSTS_umfPoolCalloc(P) POSTS_fwd(P, OP_CALLOC, 0, NULL, g_ptr, num, size)
void *umfPoolCalloc(umf_memory_pool_handle_t h, size_t num, size_t size) ASG(GHOST) POSTS_umfPoolCalloc(ENSP);
#define POSTS_umfPoolRealloc(P) POSTS_fwd(P, OP_REALLOC, 0, NULL, g_ptr, ptr, size)
void *umfPoolRealloc(umf_memory_pool_handle_t h, void *ptr, size_t size) ASG(GHOST) POSTS_umfPoolRealloc(ENSP);
#define POSTS_umfPoolMallocUsableSize(P) POSTS_fwd(P, OP_SIZE, 0, 0, g_sz, ptr, 0)
size_t umfPoolMallocUsableSize(umf_memory_pool_handle_t h, void *ptr) ASG(GHOST) POSTS_umfPoolMallocUsableSize(ENSP);
#define POSTS_umfPoolFree(P) POSTS_fwd(P, OP_FREE, 0, UMF_RESULT_ERROR_INVALID_ARGUMENT, g_res, ptr, 0)
umf_result_t umfPoolFree(umf_memory_pool_handle_t h, void *ptr) ASG(GHOST) POSTS_umfPoolFree(ENSP);
#define POSTS_umfPoolGetLastAllocationError(P) POSTS_fwd(P, OP_ERR, 0, UMF_RESULT_ERROR_INVALID_ARGUMENT, g_res, 0, 0)
umf_result_t umfPoolGetLastAllocationError(umf_memory_pool_handle_t h) ASG(GHOST) POSTS_umfPoolGetLastAllocationError(ENSP);
#define POSTS_umfPoolByPtr(P) P("the owner is the one the tracker names for exactly this address", RET == tr_answer && tr_n == 1 && tr_asked == A(ptr) && g_n == 0)
umf_memory_pool_handle_t umfPoolByPtr(const void *ptr) ASG(tr_n, tr_asked) POSTS_umfPoolByPtr(ENSP);
#define POSTS_umfFree(P) \
    P("the owner is looked up for exactly this address", tr_n == 1 && tr_asked == A(ptr)) \
    P("memory of a pool is freed through that pool", IMP(tr_answer != NULL, g_n == 1 && g_op == OP_FREE && g_a[0] == A(tr_answer->pool_priv) && g_a[1] == A(ptr) && RET == g_res)) \
    P("for memory of no pool nothing is done", IMP(tr_answer == NULL, g_n == 0 && RET == UMF_RESULT_SUCCESS))
umf_result_t umfFree(void *ptr) ASG(GHOST, tr_n, tr_asked) POSTS_umfFree(ENSP);

#define strlen(s) 0
#include "memory_pool.c"

static umf_memory_pool_t g_pool;
static umf_memory_pool_handle_t setup(void) {
    g_n = g_op = 0; vp_steps = vp_faults = 0; vp_fault_mode = 0;
    g_ptr = (void *)(uintptr_t)vp_u64("result pointer"); g_sz = vp_u64("usable size");
    g_res = (umf_result_t)vp_range("result", 0, 8);
    full_ops(&g_pool.ops);
    g_pool.pool_priv = (void *)(uintptr_t)vp_u64("private data");
    g_pool.flags = 0; g_pool.provider = (umf_memory_provider_handle_t)&tr_prov; g_pool.tag = NULL;
    tr_answer = vp_bool("tracked") ? &g_pool : NULL; tr_n = 0; tr_asked = 0;
    t_live = t_created = t_destroyed_up = t_tracking_destroyed = 0;
    t_up = (umf_memory_provider_handle_t)&up_prov;
    return vp_bool("handle") ? &g_pool : NULL;
}
static void *anyptr(const char *n) { (void)n; return (void *)(uintptr_t)vp_u64(n); }
#define R2 REACH("forwarded", g_n == 1); REACH("rejected", g_n == 0)
//@ name=C16.umfPoolMalloc props=C16 h=h_malloc mode=dfcc enforce=umfPoolMalloc
void h_malloc(void) { umf_memory_pool_handle_t h = setup(); size_t size = vp_u64("size"); void *vp_ret = umfPoolMalloc(h, size); VP_POSTS(POSTS_umfPoolMalloc); R2; }
//@ name=C16.umfPoolAlignedMalloc props=C16 h=h_amalloc mode=dfcc enforce=umfPoolAlignedMalloc
void h_amalloc(void) { umf_memory_pool_handle_t h = setup(); size_t size = vp_u64("size"), alignment = vp_u64("alignment"); void *vp_ret = umfPoolAlignedMalloc(h, size, alignment); VP_POSTS(POSTS_umfPoolAlignedMalloc); R2; }
//@ name=C16.umfPoolCalloc props=C16 h=h_calloc mode=dfcc enforce=umfPoolCalloc
void h_calloc(void) { umf_memory_pool_handle_t h = setup(); size_t num = vp_u64("num"), size = vp_u64("size"); void *vp_ret = umfPoolCalloc(h, num, size); VP_POSTS(POSTS_umfPoolCalloc); R2; }
//@ name=C16.umfPoolRealloc props=C16 h=h_realloc mode=dfcc enforce=umfPoolRealloc
void h_realloc(void) { umf_memory_pool_handle_t h = setup(); void *ptr = anyptr("ptr"); size_t size = vp_u64("size"); void *vp_ret = umfPoolRealloc(h, ptr, size); VP_POSTS(POSTS_umfPoolRealloc); R2; }
//@ name=C16.umfPoolMallocUsableSize props=C16 h=h_size mode=dfcc enforce=umfPoolMallocUsableSize
void h_size(void) { umf_memory_pool_handle_t h = setup(); void *ptr = anyptr("ptr"); size_t vp_ret = umfPoolMallocUsableSize(h, ptr); VP_POSTS(POSTS_umfPoolMallocUsableSize); R2; }
//@ name=C16.umfPoolFree props=C16 h=h_pfree mode=dfcc enforce=umfPoolFree
void h_pfree(void) { umf_memory_pool_handle_t h = setup(); void *ptr = anyptr("ptr"); umf_result_t vp_ret = umfPoolFree(h, ptr); VP_POSTS(POSTS_umfPoolFree); R2; }
//@ name=C16.umfPoolGetLastAllocationError props=C16 h=h_err mode=dfcc enforce=umfPoolGetLastAllocationError
void h_err(void) { umf_memory_pool_handle_t h = setup(); umf_result_t vp_ret = umfPoolGetLastAllocationError(h); VP_POSTS(POSTS_umfPoolGetLastAllocationError); R2; }
//@ name=C16.umfPoolByPtr props=C16 h=h_by mode=dfcc enforce=umfPoolByPtr
void h_by(void) { setup(); void *ptr = anyptr("ptr"); umf_memory_pool_handle_t vp_ret = umfPoolByPtr(ptr); VP_POSTS(POSTS_umfPoolByPtr); REACH("found", vp_ret != NULL); }
//@ name=C16.umfFree props=C16 h=h_free mode=dfcc enforce=umfFree replace=umfPoolByPtr,umfPoolFree
void h_free(void) { setup(); void *ptr = anyptr("ptr"); umf_result_t vp_ret = umfFree(ptr); VP_POSTS(POSTS_umfFree); R2; }

//@ name=C16.tag props=C16,C29 h=h_tag fn=umfPoolSetTag,umfPoolGetTag
void h_tag(void) {
    vp_locks_reset();
    umf_memory_pool_handle_t h = setup();
    void *t0 = anyptr("old tag"), *t1 = anyptr("new tag"), *was = &g_n, *got = &g_n;
    g_pool.tag = t0;
    bool want = vp_bool("old tag wanted"), out = vp_bool("output");
    umf_result_t r = umfPoolSetTag(h, t1, want ? &was : NULL);
    CHECK("a NULL pool is rejected", IFF(r == UMF_RESULT_SUCCESS, h != NULL) && IMP(!h, r == UMF_RESULT_ERROR_INVALID_ARGUMENT && was == (void *)&g_n && g_pool.tag == t0));
    CHECK("the previous tag is reported and the new one stored", IMP(h != NULL, (!want || was == t0) && h->tag == t1 && vp_lock_ops == 1));
    umf_result_t q = umfPoolGetTag(h, out ? &got : NULL);
    CHECK("the tag last stored is reported", IMP(h && out, q == UMF_RESULT_SUCCESS && got == t1) && IMP(!h || !out, q == UMF_RESULT_ERROR_INVALID_ARGUMENT && got == (void *)&g_n));
    CHECK("LOCK no lock stays held", vp_locks_held == 0);
    REACH("set", r == 0 && q == 0); REACH("null", r != 0);
}
//@ name=C16.get_provider props=C16 h=h_gp fn=umfPoolGetMemoryProvider
void h_gp(void) {
    setup();
    bool notrack = vp_bool("tracking disabled");
    g_pool.flags = (umf_pool_create_flags_t)(notrack ? UMF_POOL_CREATE_FLAG_DISABLE_TRACKING : 0) | (vp_bool("own") ? UMF_POOL_CREATE_FLAG_OWN_PROVIDER : 0);
    if (notrack) g_pool.provider = (umf_memory_provider_handle_t)&up_prov;
    umf_memory_provider_handle_t got = NULL; bool out = vp_bool("output");
    umf_result_t r = umfPoolGetMemoryProvider(&g_pool, out ? &got : NULL);
    CHECK("the provider given at creation is reported, not the wrapper", out ? r == UMF_RESULT_SUCCESS && A(got) == A(&up_prov) : r == UMF_RESULT_ERROR_INVALID_ARGUMENT);
    REACH("direct", notrack && out); REACH("wrapped", !notrack && out);
}
//@ name=C16.lifecycle props=C16,C28,C29 h=h_life fn=umfPoolCreate,umfPoolCreateInternal,umfPoolDestroy,umfPoolGetMemoryProvider
void h_life(void) {
    setup(); vp_ba_reset(); vp_locks_reset(); vp_mutex_init_may_fail = true;
    umf_memory_pool_ops_t ops; full_ops(&ops);
    bool noctl = vp_bool("no control handler");
    if (noctl) ops.ctl = NULL;
    umf_memory_pool_handle_t out = &g_pool;
    const umf_memory_pool_ops_t *pops = vp_bool("ops") ? &ops : NULL;
    umf_memory_provider_handle_t prov = vp_bool("provider") ? (umf_memory_provider_handle_t)&up_prov : NULL;
    umf_memory_pool_handle_t *pout = vp_bool("out") ? &out : NULL;
    uint32_t flags = vp_u32("flags");
    ASSUME((flags & ~3u) == 0);
    void *params = anyptr("params");
    bool track = !(flags & UMF_POOL_CREATE_FLAG_DISABLE_TRACKING), own = (flags & UMF_POOL_CREATE_FLAG_OWN_PROVIDER) != 0;
    umf_result_t r = umfPoolCreate(pops, prov, params, (umf_pool_create_flags_t)flags, pout);
    bool bad = !pops || !prov || !pout;
    CHECK("NULL arguments are rejected and nothing is done", IMP(bad, r == UMF_RESULT_ERROR_INVALID_ARGUMENT && g_n == 0 && vp_ba_allocs == 0 && t_created == 0));
    CHECK("creation succeeds exactly if every step does", IMP(!bad, IFF(r == UMF_RESULT_SUCCESS, vp_faults == 0 && g_res == UMF_RESULT_SUCCESS)));
    CHECK("the implementation is initialised at most once, after the other steps, on the (wrapped) provider, with the given parameters",
          g_n == (!bad && vp_faults == 0) && IMP(g_n, g_op == OP_INIT && g_a[0] == (track ? A(&tr_prov) : A(&up_prov)) && g_a[1] == A(params)));
    CHECK("its failure is returned", IMP(!bad && vp_faults == 0, r == g_res));
    CHECK("the provider is wrapped exactly unless tracking is disabled", IMP(g_n, t_created == track && IMP(track, t_live == (r == 0))));
    CHECK("on failure nothing is published or leaked and the caller keeps its provider", IMP(r != UMF_RESULT_SUCCESS, out == &g_pool && vp_ba_live == 0 && t_live == 0 && vp_mutexes == 0 && t_destroyed_up == 0));
    REACH("init failed", g_n == 1 && r); REACH("oom", !bad && vp_ba_fails); REACH("mutex failed", vp_faults == 1 && vp_ba_live == 0 && t_tracking_destroyed);
    REACH("rejected", bad); REACH("created", r == 0 && own); REACH("untracked", r == 0 && !track);
    if (r == UMF_RESULT_SUCCESS) {
        CHECK("the new pool uses the given implementation with its own data", out && out != &g_pool && out->pool_priv == (void *)&g_n && out->ops.malloc == b_malloc && out->ops.free == b_free && out->ops.calloc == b_calloc &&
              out->ops.realloc == b_realloc && out->ops.aligned_malloc == b_amalloc && out->ops.malloc_usable_size == b_size && out->ops.get_last_allocation_error == b_err && out->ops.finalize == b_finalize && out->tag == NULL);
        CHECK("its allocations are tracked for this pool", IMP(track, t_pool == out && A(out->provider) == A(&tr_prov)) && IMP(!track, A(out->provider) == A(&up_prov)));
        CHECK("without a control handler every query is unsupported", noctl ? out->ops.ctl && out->ops.ctl(NULL, 0, "x", NULL, CTL_QUERY_READ) == UMF_RESULT_ERROR_NOT_SUPPORTED : out->ops.ctl == b_ctl);
        g_n = 0;
        umfPoolDestroy(out);
        CHECK("the pool is finalised exactly once", g_n == 1 && g_op == OP_FINI && g_a[0] == A(&g_n));
        CHECK("its wrapper is destroyed, the provider exactly if the pool owns it", t_live == 0 && t_tracking_destroyed == track && t_destroyed_up == own);
        CHECK("everything else is released", vp_ba_live == 0 && vp_mutexes == 0 && vp_locks_held == 0);
    }
}
//@ name=C26.pool.by_handle props=C26 h=h_ctl fn=by_handle_pool
void h_ctl(void) {
    setup();
    char dummy[4], nm[8];
    umf_ctl_query_type_t qt = (umf_ctl_query_type_t)vp_range("query type", 0, 2);
    int r = CTL_NODE(pool)[0].cb[CTL_QUERY_SUBTREE](&g_pool, CTL_QUERY_PROGRAMMATIC, dummy, NULL, nm, qt);
    CHECK("the pool's control handler is called once with the query unchanged",
          g_n == 1 && g_op == OP_CTL && g_a[2] == A(nm) && g_a[3] == A(dummy) && g_a[4] == (uint64_t)qt);
    CHECK("the result of the control handler is returned", IFF(r == 0, g_res == UMF_RESULT_SUCCESS));
    REACH("called", g_n == 1);
}
