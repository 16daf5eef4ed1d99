/* Contracts of src/provider/provider_fixed_memory.c (C23, C27 parameters, C28 creation). */
#define VP_BA
#define VP_LOCKS
#include <stddef.h>
static void *ba_hook(size_t s);
#define VP_BA_HOOK(s) ba_hook(s)
#include "vp.h"
#include <assert.h>
#include <limits.h>
#include <stdio.h>
#include <umf.h>
#include <umf/providers/provider_fixed_memory.h>
#include "base_alloc_global.h"
#include "coarse.h"
#include "utils_common.h"
#include "utils_concurrency.h"
#include "libumf.h"
#define U(p) ((uint64_t)(uintptr_t)(p))
#define P(x) ((void *)(uintptr_t)(x))
#ifndef VP_CASE
#define VP_CASE 0
#endif
#define PAGE ((uint64_t)4096)
#define TOP (1ULL << 47)
#define RUP(x) (((x) + PAGE - 1) & ~(PAGE - 1))
void utils_strerror(int e, char *b, size_t n) { CHECK("room for the message", n > 0); (void)e; b[0] = 'm'; if (n > 1) b[1] = 0; }
static int p_n; static uint64_t p_ptr, p_len;
int utils_purge(void *p, size_t n, int how) { CHECK("purging is forced", how == UMF_PURGE_FORCE); p_n++; p_ptr = U(p); p_len = n; if (vp_fail("purge fails")) { errno = vp_int("errno"); return -1; } return 0; }
size_t utils_get_page_size(void) { return PAGE; }
int umfInit(void) { return 0; }
void libumfInit(void) {}
/* ---- the coarse library ---- */
struct coarse_t { int x; };
static coarse_t g_coarse; static int coarse_live; static coarse_params_t c_par; static int c_n; static uint64_t c_a, c_b, c_c; static umf_result_t c_r;
umf_result_t coarse_new(coarse_params_t *p, coarse_t **c) { c_par = *p; if (vp_fail("no coarse")) return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY; coarse_live++; *c = &g_coarse; return UMF_RESULT_SUCCESS; }
void coarse_delete(coarse_t *c) { CHECK("the coarse object is deleted once", c == &g_coarse && coarse_live > 0); coarse_live--; }
static umf_result_t c_call(coarse_t *c, uint64_t a, uint64_t b, uint64_t x) { CHECK("the provider's own coarse object", c == &g_coarse); c_n++; c_a = a; c_b = b; c_c = x; return c_r = (umf_result_t)vp_range("coarse result", 0, 8); }
static uint64_t add_p, add_n; static int adds;
umf_result_t coarse_add_memory_fixed(coarse_t *c, void *p, size_t n) { CHECK("memory is added to the own coarse object", c == &g_coarse); adds++; add_p = U(p); add_n = n; return vp_fail("coarse refuses") ? UMF_RESULT_ERROR_INVALID_ARGUMENT : UMF_RESULT_SUCCESS; }
umf_result_t coarse_alloc(coarse_t *c, size_t s, size_t a, void **r) { *r = P(0x5000); return c_call(c, s, a, 0); }
umf_result_t coarse_free(coarse_t *c, void *p, size_t s) { return c_call(c, U(p), s, 0); }
umf_result_t coarse_split(coarse_t *c, void *p, size_t t, size_t f) { return c_call(c, U(p), t, f); }
umf_result_t coarse_merge(coarse_t *c, void *l, void *h, size_t t) { return c_call(c, U(l), U(h), t); }
#include "provider_fixed_memory.c"
static void *ba_hook(size_t s) { return vp_malloc(s); }
static fixed_memory_provider_t g_p; static umf_fixed_memory_provider_params_t g_par;
static void setup(void) {
    vp_ba_reset(); vp_locks_reset(); vp_steps = vp_faults = 0; vp_fault_mode = 0; coarse_live = 0; c_n = 0; p_n = 0; adds = 0;
    g_p = (fixed_memory_provider_t){0}; TLS_last_native_error = (fixed_last_native_error_t){0}; g_p.coarse = &g_coarse;
}
static bool native(int e) { return TLS_last_native_error.native_error == e; }
static bool released(void) { return vp_ba_live == 0 && coarse_live == 0 && vp_mutexes == 0; }
//@ name=C23.fixed_ops props=C23,C06 h=h_ops fn=fixed_alloc,fixed_free,fixed_allocation_split,fixed_allocation_merge,fixed_purge_force,fixed_purge_lazy,fixed_get_min_page_size,fixed_get_recommended_page_size unwind=6
void h_ops(void) {
    setup(); uint64_t a = vp_u64("a"), b = vp_u64("b"), c = vp_u64("c"); void *r = NULL; size_t n = 0;
    umf_result_t x = fixed_alloc(&g_p, a, b, &r); CHECK("allocations come from the coarse object", c_n == 1 && c_a == a && c_b == b && x == c_r && r == P(0x5000));
    x = fixed_free(&g_p, P(a), b); CHECK("memory is freed to the coarse object", c_n == 2 && c_a == a && c_b == b && x == c_r);
    x = fixed_allocation_split(&g_p, P(a), b, c); CHECK("splits are asked of the coarse object", c_n == 3 && c_a == a && c_b == b && c_c == c && x == c_r);
    x = fixed_allocation_merge(&g_p, P(a), P(b), c); CHECK("merges are asked of the coarse object", c_n == 4 && c_a == a && c_b == b && c_c == c && x == c_r);
    CHECK("splitting and merging cost nothing else", fixed_allocation_split_cb(&g_p, P(a), b, c) == 0 && fixed_allocation_merge_cb(&g_p, P(a), P(b), c) == 0 && c_n == 4);
    CHECK("lazy purging is not supported", fixed_purge_lazy(&g_p, P(a), b) == UMF_RESULT_ERROR_NOT_SUPPORTED && p_n == 0);
    x = fixed_purge_force(&g_p, P(a), b); CHECK("purging is forced on exactly the range, failures are reported", p_n == 1 && p_ptr == a && p_len == b && IFF(x != UMF_RESULT_SUCCESS, vp_faults > 0) && IMP(x, x == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC && native(UMF_FIXED_RESULT_ERROR_PURGE_FORCE_FAILED)));
    CHECK("pages are the system's", fixed_get_min_page_size(&g_p, NULL, &n) == 0 && n == PAGE); n = 0; CHECK("pages are the system's", fixed_get_recommended_page_size(&g_p, b, &n) == 0 && n == PAGE);
}
//@ name=C28.fixed_create props=C28,C23 h=h_create fn=fixed_initialize,fixed_finalize unwind=6
void h_create(void) {
    setup(); uint64_t a = vp_u64("memory"); g_par.ptr = P(a); g_par.size = vp_u64("size");
    void *prov = &g_p; umf_result_t r = fixed_initialize(&g_par, &prov);
    CHECK("creation fails exactly if a step fails", IFF(r != UMF_RESULT_SUCCESS, vp_faults));
    if (r) { CHECK("a failed creation releases everything and publishes nothing", released() && prov == &g_p); REACH("failed", r); return; }
    fixed_memory_provider_t *f = prov;
    CHECK("exactly the given memory is handed to the coarse object", adds == 1 && add_p == a && add_n == g_par.size && U(f->base) == a && f->size == g_par.size);
    CHECK("the coarse object manages the system's pages and cannot get or give more memory", c_par.provider == f && c_par.page_size == PAGE && c_par.cb.alloc == NULL && c_par.cb.free == NULL && f->coarse == &g_coarse && coarse_live == 1);
    fixed_finalize(f);
    CHECK("destroying the provider releases everything", released());
    CHECK("missing parameters are rejected", fixed_initialize(NULL, &prov) == UMF_RESULT_ERROR_INVALID_ARGUMENT && released());
    REACH("made", true);
}
//@ name=C27.fixed props=C27,C23 h=h_par fn=umfFixedMemoryProviderParamsCreate,umfFixedMemoryProviderParamsDestroy,umfFixedMemoryProviderParamsSetMemory unwind=8
void h_par(void) {
    setup(); umf_fixed_memory_provider_params_handle_t h = NULL; uint64_t a = vp_u64("memory"), n = vp_u64("size"), b = vp_u64("new memory"), m = vp_u64("new size");
    umf_result_t r = umfFixedMemoryProviderParamsCreate(&h, P(a), n);
    CHECK("an object is made exactly for memory that is not empty", r == (vp_faults ? UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY : a && n ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_INVALID_ARGUMENT));
    CHECK("a missing object is rejected", umfFixedMemoryProviderParamsCreate(NULL, P(a), n) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfFixedMemoryProviderParamsSetMemory(NULL, P(1), 1) == UMF_RESULT_ERROR_INVALID_ARGUMENT);
    if (r) { CHECK("a failed creation keeps nothing", h == NULL && vp_ba_live == 0); return; }
    CHECK("a new object has the given memory", U(h->ptr) == a && h->size == n);
    r = umfFixedMemoryProviderParamsSetMemory(h, P(b), m); bool ok = b && m;
    CHECK("new memory replaces the old, empty memory is rejected and changes nothing", r == (ok ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_INVALID_ARGUMENT) && U(h->ptr) == (ok ? b : a) && h->size == (ok ? m : n));
    CHECK("destroying releases the object", umfFixedMemoryProviderParamsDestroy(h) == 0 && vp_ba_live == 0 && umfFixedMemoryProviderParamsDestroy(NULL) == 0);
    REACH("rejected", !ok);
}
