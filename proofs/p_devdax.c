/* Contracts of src/provider/provider_devdax_memory.c (C23, C27 parameters, C28 creation). */
#define VP_BA
#define VP_LOCKS
#include <stddef.h>
static void *ba_hook(size_t s);
#define VP_BA_HOOK(s) ba_hook(s)
#include "vp.h"
#include <assert.h>
#include <limits.h>
#include <stdio.h>
#include <umf.h>
#include <umf/providers/provider_devdax_memory.h>
#include "base_alloc_global.h"
#include "coarse.h"
#include "utils_common.h"
#include "utils_concurrency.h"
#include "libumf.h"
#define U(p) ((uint64_t)(uintptr_t)(p))
#define P(x) ((void *)(uintptr_t)(x))
#ifndef VP_CASE
#define VP_CASE 0
#endif
#define PAGE ((uint64_t)2 << 20)
#define TOP (1ULL << 47)
#define RUP(x) (((x) + PAGE - 1) & ~(PAGE - 1))
/* ---- the kernel ---- */
static int g_fd, fd_live, mm_n, mm_fails, mm_prot, mm_flags, mm_fd, mu_n, mu_fail; static bool dax; static const char *o_path;
static uint64_t lo, mm_len, mm_off, mu_lo, mu_len; static bool live;
void *utils_mmap_file(void *hint, size_t l, int prot, int flags, int fd, size_t o, bool *d) {
    CHECK("no address is forced, the open device is mapped, whether it is DAX is asked", hint == NULL && fd == g_fd && fd_live == 1 && d && !live); mm_n++;
    mm_prot = prot; mm_flags = flags; mm_fd = fd; mm_len = l; mm_off = o;
    uint64_t a = vp_u64("mapped address"); errno = vp_int("errno");
    if (vp_fail("mmap fails") || l == 0 || l > TOP || o % 4096) { mm_fails++; return NULL; }
    ASSUME(a && a % 4096 == 0 && a < TOP && l <= TOP - a);
    *d = dax; lo = a; live = true;
    return P(a);
}
int utils_munmap(void *p, size_t l) { mu_n++; mu_lo = U(p); mu_len = l; if (live && lo == U(p) && l == mm_len) live = false; if ((mu_fail = vp_fail("munmap fails"))) { errno = vp_int("errno"); return -1; } return 0; }
int utils_devdax_open(const char *p) { o_path = p; if (vp_fail("device cannot be opened")) return -1; fd_live++; return g_fd; }
int utils_close_fd(int fd) { CHECK("an open file is closed once", fd == g_fd && fd_live > 0); fd_live--; return 0; }
umf_result_t utils_translate_mem_protection_flags(unsigned in, unsigned *out) { if (in > 31) return UMF_RESULT_ERROR_INVALID_ARGUMENT; *out = in + 100; return UMF_RESULT_SUCCESS; }
int utils_copy_path(const char *in, char *out, size_t max) { CHECK("room for the longest path", max == PATH_MAX); if (vp_fail("path too long")) return -1; for (int i = 0; i < 4; i++) { out[i] = in[i]; if (!in[i]) break; } return 0; }
void utils_align_ptr_down_size_up(void **p, size_t *s, size_t a) { uint64_t x = U(*p), r = x & (a - 1); *p = P(x - r); *s = (*s + r + a - 1) & ~(a - 1); }
void utils_strerror(int e, char *b, size_t n) { CHECK("room for the message", n > 0); (void)e; b[0] = 'm'; if (n > 1) b[1] = 0; }
static int p_n; static uint64_t p_ptr, p_len;
int utils_purge(void *p, size_t n, int how) { CHECK("purging is forced", how == UMF_PURGE_FORCE); p_n++; p_ptr = U(p); p_len = n; if (vp_fail("purge fails")) { errno = vp_int("errno"); return -1; } return 0; }
int umfInit(void) { return 0; }
void libumfInit(void) {}
/* ---- the coarse library ---- */
struct coarse_t { int x; };
static coarse_t g_coarse; static int coarse_live; static coarse_params_t c_par; static int c_n; static uint64_t c_a, c_b, c_c; static umf_result_t c_r;
umf_result_t coarse_new(coarse_params_t *p, coarse_t **c) { c_par = *p; if (vp_fail("no coarse")) return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY; coarse_live++; *c = &g_coarse; return UMF_RESULT_SUCCESS; }
void coarse_delete(coarse_t *c) { CHECK("the coarse object is deleted once", c == &g_coarse && coarse_live > 0); coarse_live--; }
static umf_result_t c_call(coarse_t *c, uint64_t a, uint64_t b, uint64_t x) { CHECK("the provider's own coarse object", c == &g_coarse); c_n++; c_a = a; c_b = b; c_c = x; return c_r = (umf_result_t)vp_range("coarse result", 0, 8); }
static uint64_t add_p, add_n; static int adds;
umf_result_t coarse_add_memory_fixed(coarse_t *c, void *p, size_t n) { CHECK("memory is added to the own coarse object", c == &g_coarse); adds++; add_p = U(p); add_n = n; return vp_fail("coarse refuses") ? UMF_RESULT_ERROR_INVALID_ARGUMENT : UMF_RESULT_SUCCESS; }
umf_result_t coarse_alloc(coarse_t *c, size_t s, size_t a, void **r) { *r = P(0x5000); return c_call(c, s, a, 0); }
umf_result_t coarse_free(coarse_t *c, void *p, size_t s) { return c_call(c, U(p), s, 0); }
umf_result_t coarse_split(coarse_t *c, void *p, size_t t, size_t f) { return c_call(c, U(p), t, f); }
umf_result_t coarse_merge(coarse_t *c, void *l, void *h, size_t t) { return c_call(c, U(l), U(h), t); }
/* strncpy and memset by their contracts, without the zero padding (the destinations are zeroed before) */
static char *my_strncpy(char *d, const char *s, size_t n) { for (size_t i = 0; i < 6; i++) { if (i == n) break; d[i] = s[i]; if (!s[i]) break; } return d; }
static int my_strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < 6; i++) { if (i == n) break; if (a[i] != b[i]) return 1; if (!a[i]) break; } return 0; }
static void *my_memset(void *p, int c, size_t n);
#define strncpy my_strncpy
#define strncmp my_strncmp
#define memset my_memset
#include "provider_devdax_memory.c"
#undef strncpy
#undef strncmp
#undef memset
static void *my_memset(void *p, int c, size_t n) {
    if (c == 0 && n == sizeof(devdax_memory_provider_t)) *(devdax_memory_provider_t *)p = (devdax_memory_provider_t){0}; else memset(p, c, n);
    return p;
}
#if defined(VP_NATIVE)
static void *ba_hook(size_t s) { return vp_malloc(s); }
#else
static void *ba_hook(size_t s) {
    if (s == sizeof(devdax_memory_provider_t)) { devdax_memory_provider_t *o = malloc(sizeof(devdax_memory_provider_t)); ASSUME(o); return o; }
    return vp_malloc(s);
}
#endif
static devdax_memory_provider_t g_p;
static void setup(void) {
    vp_ba_reset(); vp_locks_reset(); vp_steps = vp_faults = 0; vp_fault_mode = 0;
    mm_n = mm_fails = mu_n = mu_fail = 0; fd_live = 0; coarse_live = 0; c_n = 0; p_n = 0; adds = 0; live = false; o_path = NULL; dax = false;
    g_p = (devdax_memory_provider_t){0}; TLS_last_native_error = (devdax_last_native_error_t){0};
    g_fd = (int)vp_range("file descriptor", 1, INT_MAX); g_p.coarse = &g_coarse;
}
static bool native(int e) { return TLS_last_native_error.native_error == e; }
static bool released(void) { return vp_ba_live == 0 && fd_live == 0 && coarse_live == 0 && vp_mutexes == 0 && !live; }
static devdax_ipc_data_t g_ipc;
//@ name=C23.devdax_ipc props=C23,C17,C28 h=h_ipc fn=devdax_get_ipc_handle_size,devdax_get_ipc_handle,devdax_put_ipc_handle,devdax_open_ipc_handle,devdax_close_ipc_handle unwind=8
void h_ipc(void) {
    setup(); g_p.path[0] = '/'; g_p.path[1] = (char)vp_range("character", 1, 127); g_p.protection = vp_u32("protection"); dax = vp_bool("device is DAX");
    uint64_t base = vp_range("base", 1, TOP), all = vp_range("device size", 1, TOP), o = vp_u64("offset") & ~(PAGE - 1), sz = vp_u64("size"); ASSUME(o < all && sz > 0 && sz <= all - o); g_p.base = P(base); g_p.size = all;
    g_ipc = (devdax_ipc_data_t){0}; size_t need = 0;
    CHECK("the handle size is that of the data", devdax_get_ipc_handle_size(&g_p, &need) == 0 && need == sizeof(devdax_ipc_data_t));
    umf_result_t r = devdax_get_ipc_handle(&g_p, P(base + o), sz, &g_ipc);
    CHECK("the handle names exactly the device, protection, offset and length", r == UMF_RESULT_SUCCESS && my_strncmp(g_ipc.path, g_p.path, PATH_MAX) == 0 && g_ipc.offset == o && g_ipc.length == sz && g_ipc.protection == g_p.protection);
    bool own = vp_bool("put by the same provider"); char keep = g_p.path[1]; if (!own) g_p.path[1] = keep == 'x' ? 'y' : 'x';
    r = devdax_put_ipc_handle(&g_p, &g_ipc);
    CHECK("data of another device is rejected", r == (own ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_INVALID_ARGUMENT));
    void *p = &g_p; vp_faults = 0; r = devdax_open_ipc_handle(&g_p, &g_ipc, &p);
    CHECK("the device named is opened, and its descriptor closed", o_path == g_ipc.path && fd_live == 0);
    CHECK("opening succeeds exactly if the device can be opened and mapped as DAX", IFF(r == UMF_RESULT_SUCCESS, mm_n && mm_fails == 0 && dax));
    CHECK("opening maps the whole pages containing exactly the range", IMP(mm_n, mm_off == o && mm_len == RUP(sz) && mm_prot == (int)g_ipc.protection));
    CHECK("a failure leaves nothing mapped and gives nothing", IMP(r, (!live || mu_fail) && p == NULL));
    CHECK("a failed mapping records its native error", IMP(mm_fails, r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC && native(UMF_DEVDAX_RESULT_ERROR_ALLOC_FAILED)));
    REACH("failed", mm_fails); REACH("not dax", mm_n && !dax);
    if (r) return;
    CHECK("the result is the mapping", U(p) == lo);
    r = devdax_close_ipc_handle(&g_p, p, sz);
    CHECK("closing unmaps exactly what opening mapped", mu_n == 1 && mu_lo == lo && !live);
    CHECK("closing fails only if unmapping fails", IFF(r != UMF_RESULT_SUCCESS, mu_fail) && IMP(r, r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC && native(UMF_DEVDAX_RESULT_ERROR_FREE_FAILED)));
    REACH("closed", r == 0);
}
//@ name=C23.devdax_ops props=C23,C06 h=h_ops fn=devdax_alloc,devdax_free,devdax_allocation_split,devdax_allocation_merge,devdax_purge_force,devdax_purge_lazy,devdax_get_min_page_size,devdax_get_recommended_page_size unwind=6
void h_ops(void) {
    setup(); uint64_t a = vp_u64("a"), b = vp_u64("b"), c = vp_u64("c"); void *r = NULL; size_t n = 0;
    umf_result_t x = devdax_alloc(&g_p, a, b, &r); CHECK("allocations come from the coarse object", c_n == 1 && c_a == a && c_b == b && x == c_r && r == P(0x5000));
    x = devdax_free(&g_p, P(a), b); CHECK("memory is freed to the coarse object", c_n == 2 && c_a == a && c_b == b && x == c_r);
    x = devdax_allocation_split(&g_p, P(a), b, c); CHECK("splits are asked of the coarse object", c_n == 3 && c_a == a && c_b == b && c_c == c && x == c_r);
    x = devdax_allocation_merge(&g_p, P(a), P(b), c); CHECK("merges are asked of the coarse object", c_n == 4 && c_a == a && c_b == b && c_c == c && x == c_r);
    CHECK("splitting and merging cost nothing else", devdax_allocation_split_cb(&g_p, P(a), b, c) == 0 && devdax_allocation_merge_cb(&g_p, P(a), P(b), c) == 0 && c_n == 4);
    CHECK("lazy purging is not supported", devdax_purge_lazy(&g_p, P(a), b) == UMF_RESULT_ERROR_NOT_SUPPORTED && p_n == 0);
    x = devdax_purge_force(&g_p, P(a), b); CHECK("purging is forced on exactly the range, failures are reported", p_n == 1 && p_ptr == a && p_len == b && IFF(x != UMF_RESULT_SUCCESS, vp_faults > 0) && IMP(x, x == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC && native(UMF_DEVDAX_RESULT_ERROR_PURGE_FORCE_FAILED)));
    CHECK("pages are 2 MB", devdax_get_min_page_size(&g_p, NULL, &n) == 0 && n == PAGE); n = 0; CHECK("pages are 2 MB", devdax_get_recommended_page_size(&g_p, b, &n) == 0 && n == PAGE);
}
static umf_devdax_memory_provider_params_t g_par; static char g_path[4];
//@ name=C28.devdax_create props=C28,C23 h=h_create fn=devdax_initialize,devdax_finalize,devdax_translate_params unwind=6 cases=20
void h_create(void) {
    setup(); vp_mutex_init_may_fail = true; vp_fault_mode = 1; vp_fail_at = VP_CASE / 2; dax = VP_CASE & 1;
    g_path[0] = '/'; g_path[1] = 'f'; g_par.path = g_path; g_par.protection = vp_u32("protection"); g_par.size = vp_u64("size");
    void *prov = &g_p; umf_result_t r = devdax_initialize(&g_par, &prov);
    bool bad = g_par.protection > 31 || g_par.size == 0;
    CHECK("creation fails exactly if a parameter is wrong, the device is not DAX or a step fails", IFF(r != UMF_RESULT_SUCCESS, bad || !dax || vp_faults || mm_fails) && IMP(bad && vp_faults == 0, r == UMF_RESULT_ERROR_INVALID_ARGUMENT));
    if (r) { CHECK("a failed creation releases everything and publishes nothing", released() && prov == &g_p); REACH("failed", r); return; }
    devdax_memory_provider_t *f = prov;
    CHECK("the whole device is mapped from its start with the configured protection, its descriptor is closed", live && mm_off == 0 && mm_len == g_par.size && mm_prot == (int)g_par.protection + 100 && o_path == g_path && fd_live == 0);
    CHECK("exactly the mapping is handed to the coarse object", adds == 1 && add_p == lo && add_n == g_par.size && U(f->base) == lo && f->size == g_par.size);
    CHECK("device and protection are the configured ones", f->protection == g_par.protection + 100 && f->path[0] == '/' && f->path[1] == 'f' && f->path[2] == 0);
    CHECK("the coarse object manages 2 MB pages and cannot get or give more memory", c_par.provider == f && c_par.page_size == PAGE && c_par.cb.alloc == NULL && c_par.cb.free == NULL && f->coarse == &g_coarse && coarse_live == 1);
    vp_fail_at = 0; devdax_finalize(f);
    CHECK("destroying the provider releases everything", released());
    REACH("made", true);
}
//@ name=C28.devdax_reject props=C28,C23 h=h_reject fn=devdax_initialize unwind=6
void h_reject(void) {
    setup(); void *prov = &g_p; g_par.path = NULL; g_par.size = vp_u64("size");
    CHECK("missing parameters are rejected", devdax_initialize(NULL, &prov) == UMF_RESULT_ERROR_INVALID_ARGUMENT && devdax_initialize(&g_par, &prov) == UMF_RESULT_ERROR_INVALID_ARGUMENT && prov == &g_p && released());
}
/* ---- parameters ---- */
//@ name=C27.devdax props=C27 h=h_par fn=umfDevDaxMemoryProviderParamsCreate,umfDevDaxMemoryProviderParamsDestroy,umfDevDaxMemoryProviderParamsSetDeviceDax,umfDevDaxMemoryProviderParamsSetProtection unwind=8 cases=16 bounded="paths of at most 3 characters"
void h_par(void) {
    setup(); vp_fault_mode = 1; vp_fail_at = VP_CASE & 3; const int n = VP_CASE >> 2; static char path[4]; umf_devdax_memory_provider_params_handle_t h = NULL; uint64_t sz = vp_u64("size"), sz2 = vp_u64("second size");
    for (int i = 0; i < 3; i++) { char c = (char)vp_range("character", 1, 127); path[i] = i < n ? c : 0; }
    umf_result_t r = umfDevDaxMemoryProviderParamsCreate(&h, path, sz);
    CHECK("an object is made exactly for a path, with memory", r == (VP_CASE & 3 && vp_faults ? UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY : n ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_INVALID_ARGUMENT));
    CHECK("a missing path or object is rejected", umfDevDaxMemoryProviderParamsCreate(&h, NULL, sz) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfDevDaxMemoryProviderParamsCreate(NULL, path, sz) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfDevDaxMemoryProviderParamsSetDeviceDax(NULL, path, sz) == UMF_RESULT_ERROR_INVALID_ARGUMENT
        && umfDevDaxMemoryProviderParamsSetProtection(NULL, 1) == UMF_RESULT_ERROR_INVALID_ARGUMENT);
    if (r) { CHECK("a failed creation keeps nothing", h == NULL && vp_ba_live == 0); return; }
    char c0[4]; memcpy(c0, path, 4); path[0] = '?'; const unsigned dflt = UMF_PROTECTION_READ | UMF_PROTECTION_WRITE;
    CHECK("a new object has the given device and the documented defaults", h->protection == dflt && h->size == sz && strcmp(h->path, c0) == 0);
    unsigned v = vp_u32("value"); r = umfDevDaxMemoryProviderParamsSetProtection(h, v);
    CHECK("protection is stored if it is a combination of flags, else unchanged", r == (v != 0 && v <= 15 ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_INVALID_ARGUMENT) && h->protection == (r ? dflt : v) && h->size == sz && strcmp(h->path, c0) == 0); v = h->protection;
    CHECK("an empty or missing path is rejected and changes nothing", umfDevDaxMemoryProviderParamsSetDeviceDax(h, "", sz2) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfDevDaxMemoryProviderParamsSetDeviceDax(h, NULL, sz2) == UMF_RESULT_ERROR_INVALID_ARGUMENT && strcmp(h->path, c0) == 0 && h->size == sz);
    vp_faults = 0; r = umfDevDaxMemoryProviderParamsSetDeviceDax(h, "/b", sz2);
    CHECK("a new device replaces the old one, or nothing changes", r == (vp_faults ? UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY : UMF_RESULT_SUCCESS) && strcmp(h->path, r ? c0 : "/b") == 0 && h->size == (r ? sz : sz2) && h->protection == v && vp_ba_live == 2);
    CHECK("destroying releases everything owned", umfDevDaxMemoryProviderParamsDestroy(h) == 0 && vp_ba_live == 0 && umfDevDaxMemoryProviderParamsDestroy(NULL) == 0);
}
