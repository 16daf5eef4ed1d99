/* Contracts of src/provider/provider_file_memory.c (C22 file ranges, C27 parameters, C28 creation). */
#define VP_BA
#define VP_LOCKS
#include <stddef.h>
static void *ba_hook(size_t s);
#define VP_BA_HOOK(s) ba_hook(s)
#include "vp.h"
#include <assert.h>
#include <limits.h>
#include <stdio.h>
#include <umf.h>
#include <umf/providers/provider_file_memory.h>
#include "base_alloc_global.h"
#include "coarse.h"
#include "critnib.h"
#include "utils_common.h"
#include "utils_concurrency.h"
#include "libumf.h"
#define U(p) ((uint64_t)(uintptr_t)(p))
#define P(x) ((void *)(uintptr_t)(x))
#ifndef VP_CASE
#define VP_CASE 0
#endif
#define PAGE ((VP_CASE & 1) ? (uint64_t)2 << 20 : (uint64_t)4096)
#define TOP (1ULL << 47)
#ifndef ATOP
#define ATOP TOP
#endif
#define RUP(x) (((x) + PAGE - 1) & ~(PAGE - 1))
/* ---- the kernel: one file, the current mapping and at most two new ones ---- */
static uint64_t f_size; static int g_fd, fd_live, mm_n, mm_fails, mm_prot, mm_flags, mm_fd, mu_n, mu_fail, fa_n; static bool fa_bad, dax_file;
static uint64_t lo[3], len[3], off[3]; static bool live[3]; static uint64_t mu_lo, mu_len, mm_len, mm_off; static bool g_other, nomap; /* mappings of IPC handles and of probing */
void *utils_mmap_file(void *hint, size_t l, int prot, int flags, int fd, size_t o, bool *dax) {
    ASSUME(!nomap); CHECK("no address is forced", hint == NULL); mm_n++;
    mm_prot = prot; mm_flags = flags; mm_fd = fd; mm_len = l; mm_off = o;
    uint64_t a = vp_u64("mapped address"); errno = vp_int("errno");
    if (vp_fail("mmap fails") || l == 0 || l > TOP || o % PAGE) { mm_fails++; return NULL; }
    CHECK("the file is grown before it is mapped beyond its end", g_other || (o <= f_size && l <= f_size - o));
    ASSUME(a && a % PAGE == 0 && a < TOP && RUP(l) <= TOP - a);
    if (dax) *dax = dax_file;
    CHECK("one mapping at a time", mm_n == 1 && !live[1]);
    if (live[0]) ASSUME(a + RUP(l) <= lo[0] || lo[0] + len[0] <= a);
    lo[1] = a; len[1] = RUP(l); off[1] = o; live[1] = true;
    return P(a);
}
int utils_munmap(void *p, size_t l) { mu_n++; mu_lo = U(p); mu_len = l; for (int i = 0; i < 3; i++) if (live[i] && lo[i] == U(p) && RUP(l) == len[i]) live[i] = false; if ((mu_fail = vp_fail("munmap fails"))) { errno = vp_int("errno"); return -1; } return 0; }
int utils_fallocate(int fd, long o, long l) {
    CHECK("the provider's file grows at its end", fd == g_fd && (uint64_t)o == f_size); fa_n++;
    if ((fa_bad = l <= 0 || o < 0 || l > INT64_MAX - o || vp_fail("file cannot grow"))) return -1;
    f_size = (uint64_t)o + (uint64_t)l; return 0;
}
int utils_set_file_size(int fd, size_t n) { CHECK("the own file is sized", fd == g_fd && fd_live == 1); if (vp_fail("file size fails")) return -1; f_size = n; return 0; }
int utils_file_open_or_create(const char *p) { (void)p; if (vp_fail("file cannot be opened")) return -1; fd_live++; return g_fd; }
static const char *o_path;
int utils_file_open(const char *p) { o_path = p; if (vp_fail("file cannot be opened")) return -1; fd_live++; return g_fd; }
int utils_close_fd(int fd) { CHECK("an open file is closed once", fd == g_fd && fd_live > 0); fd_live--; return 0; }
size_t utils_get_page_size(void) { return 4096; }
umf_result_t utils_translate_mem_protection_flags(unsigned in, unsigned *out) { if (in > 31) return UMF_RESULT_ERROR_INVALID_ARGUMENT; *out = in + 100; return UMF_RESULT_SUCCESS; }
umf_result_t utils_translate_mem_visibility_flag(umf_memory_visibility_t in, unsigned *out) { if (in != UMF_MEM_MAP_PRIVATE && in != UMF_MEM_MAP_SHARED) return UMF_RESULT_ERROR_INVALID_ARGUMENT; *out = (unsigned)in + 200; return UMF_RESULT_SUCCESS; }
int utils_copy_path(const char *in, char *out, size_t max) { CHECK("room for the longest path", max == PATH_MAX); if (vp_fail("path too long")) return -1; for (int i = 0; i < 4; i++) { out[i] = in[i]; if (!in[i]) break; } return 0; }
void utils_align_ptr_down_size_up(void **p, size_t *s, size_t a) { uint64_t x = U(*p), r = x & (a - 1); *p = P(x - r); *s = (*s + r + a - 1) & ~(a - 1); }
void utils_strerror(int e, char *b, size_t n) { CHECK("room for the message", n > 0); (void)e; b[0] = 'm'; if (n > 1) b[1] = 0; }
static int p_n; static uint64_t p_ptr, p_len;
int utils_purge(void *p, size_t n, int how) { CHECK("purging is forced", how == UMF_PURGE_FORCE); p_n++; p_ptr = U(p); p_len = n; if (vp_fail("purge fails")) { errno = vp_int("errno"); return -1; } return 0; }
int umfInit(void) { return 0; }
void libumfInit(void) {}
/* ---- the two address maps ---- */
struct critnib { int x; };
static critnib m_off, m_map; static int map_live, maps_made;
static bool cn_has[4]; static uint64_t cn_key[4], cn_val[4]; static critnib *cn_c[4];
static bool rec; static int rec_n[2]; static uint64_t rec_key[2], rec_val[2]; /* only record what is inserted */
critnib *critnib_new(void) { if (vp_fail("no map")) return NULL; map_live++; return maps_made++ ? &m_map : &m_off; }
void critnib_delete(critnib *c) { CHECK("a map is deleted", (c == &m_off || c == &m_map) && map_live > 0); map_live--; }
int critnib_insert(critnib *c, uintptr_t k, void *v, int upd) {
    CHECK("one of the provider's maps, a non-empty value, and no replacement", (c == &m_off || c == &m_map) && v && !upd);
    if (rec) { if (vp_fail("map insertion fails")) return ENOMEM; int x = c == &m_map; rec_n[x]++; rec_key[x] = k; rec_val[x] = U(v); return 0; }
    for (int i = 0; i < 4; i++) if (cn_has[i] && cn_c[i] == c && cn_key[i] == k) return EEXIST;
    if (vp_fail("map insertion fails")) return ENOMEM;
    for (int i = 0; i < 4; i++) if (!cn_has[i]) { cn_has[i] = true; cn_key[i] = k; cn_val[i] = U(v); cn_c[i] = c; return 0; }
    ASSUME(0); return ENOMEM;
}
static int cn_find(critnib *c, uint64_t k) { for (int i = 0; i < 4; i++) if (cn_has[i] && cn_c[i] == c && cn_key[i] == k) return i; return -1; }
void *critnib_get(critnib *c, uintptr_t k) { int i = cn_find(c, k); return i < 0 ? NULL : P(cn_val[i]); }
void *critnib_remove(critnib *c, uintptr_t k) { int i = cn_find(c, k); if (i < 0) return NULL; cn_has[i] = false; return P(cn_val[i]); }
int critnib_find(critnib *c, uintptr_t k, enum find_dir_t d, uintptr_t *rk, void **rv) {
    CHECK("keys above are asked for", d == FIND_G || d == FIND_GE); int b = -1;
    for (int i = 0; i < 4; i++) if (cn_has[i] && cn_c[i] == c && (cn_key[i] > k || (d == FIND_GE && cn_key[i] == k)) && (b < 0 || cn_key[i] < cn_key[b])) b = i;
    if (b < 0) return 0;
    *rk = cn_key[b]; if (rv) *rv = P(cn_val[b]); return 1;
}
/* ---- the coarse library ---- */
struct coarse_t { int x; };
static coarse_t g_coarse; static int coarse_live; static coarse_params_t c_par; static int c_n; static uint64_t c_a, c_b, c_c; static umf_result_t c_r;
umf_result_t coarse_new(coarse_params_t *p, coarse_t **c) { c_par = *p; if (vp_fail("no coarse")) return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY; coarse_live++; *c = &g_coarse; return UMF_RESULT_SUCCESS; }
void coarse_delete(coarse_t *c) { CHECK("the coarse object is deleted once", c == &g_coarse && coarse_live > 0); coarse_live--; }
static umf_result_t c_call(coarse_t *c, uint64_t a, uint64_t b, uint64_t x) { CHECK("the provider's own coarse object", c == &g_coarse); c_n++; c_a = a; c_b = b; c_c = x; return c_r = (umf_result_t)vp_range("coarse result", 0, 8); }
umf_result_t coarse_alloc(coarse_t *c, size_t s, size_t a, void **r) { *r = P(0x5000); return c_call(c, s, a, 0); }
umf_result_t coarse_free(coarse_t *c, void *p, size_t s) { return c_call(c, U(p), s, 0); }
umf_result_t coarse_split(coarse_t *c, void *p, size_t t, size_t f) { return c_call(c, U(p), t, f); }
umf_result_t coarse_merge(coarse_t *c, void *l, void *h, size_t t) { return c_call(c, U(l), U(h), t); }
/* strncpy and memset by their contracts, without the zero padding (the destinations are zeroed before) */
static char *my_strncpy(char *d, const char *s, size_t n) { for (size_t i = 0; i < 6; i++) { if (i == n) break; d[i] = s[i]; if (!s[i]) break; } return d; }
static int my_strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < 6; i++) { if (i == n) break; if (a[i] != b[i]) return 1; if (!a[i]) break; } return 0; }
static void *my_memset(void *p, int c, size_t n);
#define strncpy my_strncpy
#define strncmp my_strncmp
#define memset my_memset
#include "provider_file_memory.c"
#undef strncpy
#undef strncmp
#undef memset
static void *my_memset(void *p, int c, size_t n) {
    if (c == 0 && n == sizeof(file_memory_provider_t)) *(file_memory_provider_t *)p = (file_memory_provider_t){0}; else memset(p, c, n);
    return p;
}
#if defined(VP_NATIVE)
static void *ba_hook(size_t s) { return vp_malloc(s); }
#else
static void *ba_hook(size_t s) {
    if (s == sizeof(file_memory_provider_t)) { file_memory_provider_t *o = malloc(sizeof(file_memory_provider_t)); ASSUME(o); return o; }
    return vp_malloc(s);
}
#endif
static file_memory_provider_t g_p;
static void setup(void) {
    vp_ba_reset(); vp_locks_reset(); vp_steps = vp_faults = 0; vp_fault_mode = 0;
    nomap = rec = false; mm_n = mm_fails = mu_n = mu_fail = fa_n = 0; fa_bad = false; fd_live = 0; map_live = maps_made = 0; coarse_live = 0; c_n = 0; p_n = 0; g_other = false; f_size = 0; o_path = NULL;
    for (int i = 0; i < 3; i++) live[i] = false; for (int i = 0; i < 4; i++) cn_has[i] = false;
    g_p = (file_memory_provider_t){0}; TLS_last_native_error = (file_last_native_error_t){0};
    g_fd = (int)vp_range("file descriptor", 1, INT_MAX);
    g_p.fd = g_fd; g_p.fd_offset_map = &m_off; g_p.mmaps = &m_map; g_p.coarse = &g_coarse; g_p.page_size = PAGE; utils_mutex_init(&g_p.lock);
    g_p.protection = vp_u32("protection"); g_p.visibility = vp_u32("visibility");
}
static bool native(int e) { return TLS_last_native_error.native_error == e; }
/* a provider in any state: what is left of mapping 0 starts at base + offset_mmap, file position offset_fd */
static void state(bool mapped) {
    f_size = g_p.size_fd = vp_u64("file size"); ASSUME(f_size <= INT64_MAX); if (!mapped) { g_p.offset_fd = vp_u64("file position"); ASSUME(g_p.offset_fd <= f_size); }
    rec = true; rec_n[0] = rec_n[1] = 0;
    if (mapped) {
        uint64_t skip = vp_u64("aligned away"), left = vp_u64("mapping left"), used = vp_u64("used of the mapping");
        lo[0] = vp_u64("mapping"); off[0] = vp_u64("mapped from"); live[0] = true;
        ASSUME(lo[0] < ATOP && skip < ATOP && left < ATOP && used <= left && left && lo[0] && off[0] < ATOP && (lo[0] & (PAGE - 1)) == 0 && (off[0] & (PAGE - 1)) == 0 && (skip & (PAGE - 1)) == 0 && (left & (PAGE - 1)) == 0);
        len[0] = skip + left; ASSUME(lo[0] + len[0] <= TOP && off[0] + len[0] <= f_size );
        g_p.offset_fd = off[0] + skip + used; g_p.base_mmap = P(lo[0] + skip); g_p.size_mmap = left; g_p.offset_mmap = used;
        }
}
/* the invariant: what is left belongs to mapping i, known to the provider, whose bytes are where offset_fd says and unused so far */
static bool inv(int i) {
    uint64_t b = U(g_p.base_mmap);
    return live[i] && b >= lo[i] && b < lo[i] + len[i] && b + g_p.size_mmap == lo[i] + len[i] && g_p.offset_mmap <= g_p.size_mmap && g_p.offset_fd == off[i] + (b - lo[i]) + g_p.offset_mmap && (i == 0 || (rec_n[1] == 1 && rec_key[1] == lo[1] && rec_val[1] == len[1]));
}
#ifndef STEP
#define STEP 1
#endif
//@ name=C22.alloc props=C22 h=h_alloc fn=file_alloc_cb,file_alloc_aligned,file_mmap_aligned unwind=6 cases=36 defs=-DSTEP=13 flags='--sat-solver cadical' assume="file offsets below 2^47"
//@ name=C22.alloc_all props=C22 h=h_alloc fn=file_alloc_cb,file_alloc_aligned,file_mmap_aligned unwind=6 cases=396 tier=thorough flags='--sat-solver cadical'
//@ name=C29.file_lock props=C29 h=h_alloc fn=file_alloc_aligned unwind=6 cases=6 flags="--sat-solver cadical" assume="file offsets below 2^47"
void h_alloc(void) {
    const bool had = (VP_CASE >> 1) % 3; const int k = VP_CASE / 6 * STEP;
    setup(); state(had); nomap = (VP_CASE >> 1) % 3 == 1; /* with a mapping: without or with making another one */
    uint64_t a = k == 0 ? 0 : k <= 64 ? 1ULL << ((k - 1) & 63) : 3 * PAGE, sz = vp_u64("size"); ASSUME(sz > 0);
    const uint64_t fd0 = g_p.offset_fd, use0 = U(g_p.base_mmap) + g_p.offset_mmap; void *p = &g_p;
    umf_result_t r = file_alloc_cb(&g_p, sz, a, &p); uint64_t q = U(p); if ((VP_CASE >> 1) % 3 == 2) ASSUME(mm_n);
    CHECK("no lock stays held", vp_locks_held == 0);
    bool fresh = mm_n && live[1];
    CHECK("the remaining space stays valid, failed or not", g_p.size_fd == f_size && (fresh ? inv(1) : had ? inv(0) : !g_p.base_mmap && g_p.size_mmap == 0 && g_p.offset_mmap == 0));
    CHECK("file positions never go back or beyond the file", g_p.offset_fd >= fd0 && g_p.offset_fd <= f_size);
    CHECK("existing mappings stay", live[0] == had && IMP(mu_n, mu_lo == lo[1]));
    bool bad = k == 65;
    CHECK("only powers of two are alignments", IMP(bad, r == UMF_RESULT_ERROR_INVALID_ALIGNMENT && mm_n == 0));
    if (r) {
        CHECK("a failure gives no memory and records its native error", p == NULL && IMP(!bad && vp_faults == 0, native(UMF_FILE_RESULT_ERROR_ALLOC_FAILED)));
        CHECK("a failure is due to the arguments, the kernel or memory", bad || vp_faults || mm_fails || fa_bad || (a && sz > UINT64_MAX - RUP(a)) || sz > UINT64_MAX - PAGE - RUP(a));
        if (VP_CASE == 2) REACH("failed", r); return;
    }
    if (k <= 64) CHECK("the memory is aligned", (q & (a ? a - 1 : 0)) == 0);
    const int m = fresh ? 1 : 0;
    CHECK("the memory lies completely inside the live mapping", live[m] && q >= lo[m] && q < lo[m] + len[m] && sz <= lo[m] + len[m] - q);
    uint64_t fo = off[m] + (q - lo[m]);
    CHECK("its file bytes have not been used before", fo >= fd0 && IMP(m == 0, q >= use0));
    CHECK("its file bytes will not be used again", g_p.offset_fd >= fo + sz && U(g_p.base_mmap) + g_p.offset_mmap >= q + sz);
    CHECK("the offset recorded is exactly where it is in the file", rec_n[0] == 1 && rec_key[0] == q && rec_val[0] == fo + 1);
    if (k < 30 && nomap) REACH("from the old mapping", m == 0); if (k < 30 && !nomap) REACH("from a new mapping", m == 1);
}
//@ name=C22.splitmerge props=C22 h=h_splitmerge fn=file_allocation_split_cb,file_allocation_merge_cb unwind=6
void h_splitmerge(void) {
    setup(); uint64_t q = vp_range("pointer", 1, TOP), first = vp_range("first size", 1, TOP), total = vp_u64("total size"), o = vp_range("offset", 0, INT64_MAX); ASSUME(total > first);
    bool known = vp_bool("known"), left = vp_bool("second half known"); cn_has[0] = known; cn_key[0] = q; cn_val[0] = o + 1; cn_c[0] = &m_off; cn_has[1] = left; cn_key[1] = q + first; cn_val[1] = o + first + 1; cn_c[1] = &m_off;
    if (vp_bool("split")) {
        umf_result_t r = file_allocation_split_cb(&g_p, P(q), total, first); int a = cn_find(&m_off, q), b = cn_find(&m_off, q + first);
        CHECK("memory is split exactly if it is known and the second half can be recorded", IFF(r == UMF_RESULT_SUCCESS, known && !left && !vp_faults));
        CHECK("the second half is located right after the first", IMP(!r, b >= 0 && cn_val[b] == o + first + 1));
        CHECK("the first half stays where it is", IFF(known, a >= 0) && IMP(a >= 0, cn_val[a] == o + 1)); CHECK("a failed split records nothing", IMP(r && !left, b < 0));
        REACH("split", !r);
    } else {
        umf_result_t r = file_allocation_merge_cb(&g_p, P(q), P(q + first), total); int a = cn_find(&m_off, q), b = cn_find(&m_off, q + first);
        CHECK("memory is merged exactly if the upper part is known", IFF(r == UMF_RESULT_SUCCESS, left));
        CHECK("the upper part is forgotten, the lower stays", b < 0 && IFF(known, a >= 0) && IMP(a >= 0, cn_val[a] == o + 1));
        REACH("merged", !r);
    }
}
static file_ipc_data_t g_ipc;
//@ name=C22.ipc props=C22,C17,C28 h=h_ipc fn=file_get_ipc_handle_size,file_get_ipc_handle,file_put_ipc_handle,file_open_ipc_handle,file_close_ipc_handle unwind=8 cases=2
void h_ipc(void) {
    setup(); bool shared = vp_bool("shared"), known = vp_bool("known"); g_p.IPC_enabled = shared; g_p.is_fsdax = VP_CASE & 1; g_other = true;
    g_p.path[0] = '/'; g_p.path[1] = (char)vp_range("character", 1, 127);
    uint64_t q = vp_range("pointer", 1, TOP) & ~(PAGE - 1), sz = vp_range("size", 1, TOP), o = vp_range("offset", 0, INT64_MAX) & ~(PAGE - 1);
    cn_has[0] = known; cn_key[0] = q; cn_val[0] = o + 1; cn_c[0] = &m_off; g_ipc = (file_ipc_data_t){0};
    size_t need = 0; umf_result_t r = file_get_ipc_handle_size(&g_p, &need);
    CHECK("only shared memory has handles", IFF(r == UMF_RESULT_SUCCESS, shared) && IMP(shared, need == sizeof(file_ipc_data_t)));
    r = file_get_ipc_handle(&g_p, P(q), sz, &g_ipc);
    CHECK("a handle is made exactly for known shared memory", IFF(r == UMF_RESULT_SUCCESS, shared && known) && IMP(r, r == UMF_RESULT_ERROR_INVALID_ARGUMENT));
    if (r) {
        void *p = &g_p; if (!shared) CHECK("private memory has no handles at all", file_put_ipc_handle(&g_p, &g_ipc) == UMF_RESULT_ERROR_INVALID_ARGUMENT && file_open_ipc_handle(&g_p, &g_ipc, &p) == UMF_RESULT_ERROR_INVALID_ARGUMENT && file_close_ipc_handle(&g_p, P(q), sz) == UMF_RESULT_ERROR_INVALID_ARGUMENT && p == &g_p && mm_n == 0 && mu_n == 0 && fd_live == 0);
        REACH("refused", r); return;
    }
    CHECK("the handle names exactly the file, its range, protection and visibility", my_strncmp(g_ipc.path, g_p.path, PATH_MAX) == 0 && g_ipc.offset_fd == o && g_ipc.size == sz && g_ipc.protection == g_p.protection && g_ipc.visibility == g_p.visibility);
    bool own = vp_bool("put by the same provider"); char keep = g_p.path[1]; if (!own) { g_p.path[1] = keep == 'x' ? 'y' : 'x'; }
    CHECK("a handle is put back to a provider of the same file", IFF(file_put_ipc_handle(&g_p, &g_ipc) == UMF_RESULT_SUCCESS, own));
    void *p = NULL; vp_faults = 0; r = file_open_ipc_handle(&g_p, &g_ipc, &p);
    CHECK("opening opens the file named in the handle and closes the descriptor", o_path == g_ipc.path && fd_live == 0);
    CHECK("opening succeeds exactly if file and mapping are available", IFF(r == UMF_RESULT_SUCCESS, vp_faults == 0 && mm_fails == 0));
    CHECK("opening maps exactly the range named, as named", IMP(mm_n, mm_fd == g_fd && mm_off == o && mm_len >= sz && RUP(mm_len) == RUP(sz) && mm_prot == (int)g_ipc.protection && mm_flags == (int)g_ipc.visibility));
    CHECK("the result is the mapping", IMP(r == UMF_RESULT_SUCCESS, U(p) == lo[1]));
    CHECK("a failed mapping records its native error and gives nothing", IMP(mm_fails, r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC && native(UMF_FILE_RESULT_ERROR_ALLOC_FAILED) && p == NULL));
    REACH("failed", mm_fails);
    if (r) return;
    r = file_close_ipc_handle(&g_p, p, sz);
    CHECK("closing unmaps exactly what opening mapped", mu_n == 1 && mu_lo == lo[1] && !live[1]);
    CHECK("closing fails only if unmapping fails", IFF(r != UMF_RESULT_SUCCESS, mu_fail) && IMP(r, r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC && native(UMF_FILE_RESULT_ERROR_FREE_FAILED)));
    REACH("closed", r == 0);
}
//@ name=C22.ops props=C22,C06 h=h_ops fn=file_alloc,file_free,file_allocation_split,file_allocation_merge,file_purge_force,file_purge_lazy,file_get_min_page_size,file_get_recommended_page_size unwind=6
void h_ops(void) {
    setup(); uint64_t a = vp_u64("a"), b = vp_u64("b"), c = vp_u64("c"); void *r = NULL; size_t n = 0;
    umf_result_t x = file_alloc(&g_p, a, b, &r); CHECK("allocations come from the coarse object", c_n == 1 && c_a == a && c_b == b && x == c_r && r == P(0x5000));
    x = file_free(&g_p, P(a), b); CHECK("memory is freed to the coarse object", c_n == 2 && c_a == a && c_b == b && x == c_r);
    x = file_allocation_split(&g_p, P(a), b, c); CHECK("splits are asked of the coarse object", c_n == 3 && c_a == a && c_b == b && c_c == c && x == c_r);
    x = file_allocation_merge(&g_p, P(a), P(b), c); CHECK("merges are asked of the coarse object", c_n == 4 && c_a == a && c_b == b && c_c == c && x == c_r);
    CHECK("lazy purging is not supported", file_purge_lazy(&g_p, P(a), b) == UMF_RESULT_ERROR_NOT_SUPPORTED && p_n == 0);
    x = file_purge_force(&g_p, P(a), b); CHECK("purging is forced on exactly the range, failures are reported", p_n == 1 && p_ptr == a && p_len == b && IFF(x != UMF_RESULT_SUCCESS, vp_faults > 0) && IMP(x, x == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC && native(UMF_FILE_RESULT_ERROR_PURGE_FORCE_FAILED)));
    CHECK("the page size is the file's", file_get_min_page_size(&g_p, NULL, &n) == 0 && n == PAGE); n = 0; CHECK("the page size is the file's", file_get_recommended_page_size(&g_p, b, &n) == 0 && n == PAGE);
}
static umf_file_memory_provider_params_t g_par; static char g_path[4];
static bool released(void) { return vp_ba_live == 0 && fd_live == 0 && map_live == 0 && coarse_live == 0 && vp_mutexes == 0 && !live[1] && !live[2]; }
//@ name=C28.file_create props=C28,C22 h=h_create fn=file_initialize,file_finalize,file_translate_params unwind=6 cases=44
void h_create(void) {
    setup(); vp_locks_reset(); vp_mutex_init_may_fail = true; vp_fault_mode = 1; vp_fail_at = VP_CASE / 4; dax_file = VP_CASE & 1; const bool shared = VP_CASE & 2; 
    g_path[0] = '/'; g_path[1] = 'f'; g_par.path = g_path; g_par.protection = vp_u32("protection"); g_par.visibility = shared ? UMF_MEM_MAP_SHARED : UMF_MEM_MAP_PRIVATE; g_other = true;
    void *prov = &g_p; umf_result_t r = file_initialize(&g_par, &prov);
    bool bad = g_par.protection > 31;
    CHECK("creation fails only if the protection is wrong or a step fails", IMP(r != UMF_RESULT_SUCCESS, bad || vp_faults) && IMP(bad && vp_faults == 0, r == UMF_RESULT_ERROR_INVALID_ARGUMENT));
    if (r) { CHECK("a failed creation releases everything and publishes nothing", released() && prov == &g_p); REACH("failed", r); return; }
    CHECK("a failed step fails creation, except probing for DAX", IMP(vp_faults, mm_fails || mu_fail));
    file_memory_provider_t *f = prov;
    CHECK("a new provider has its file open and nothing mapped", f->fd == g_fd && fd_live == 1 && f->base_mmap == NULL && f->size_mmap == 0 && f->offset_mmap == 0 && f->offset_fd == 0 && f->size_fd == f_size && (!live[1] || mu_fail));
    CHECK("protection and visibility are the configured ones", f->protection == g_par.protection + 100 && f->visibility == (unsigned)g_par.visibility + 200 && f->IPC_enabled == shared);
    CHECK("the path is kept", f->path[0] == '/' && f->path[1] == 'f' && f->path[2] == 0);
    CHECK("pages are those of the file", f->page_size == (f->is_fsdax ? (uint64_t)2 << 20 : 4096) && f->is_fsdax == (shared && dax_file && !mm_fails));
    CHECK("the coarse object manages whole pages of this provider", c_par.provider == f && c_par.page_size == f->page_size && c_par.cb.alloc == file_alloc_cb && c_par.cb.free == NULL && c_par.cb.split == file_allocation_split_cb && c_par.cb.merge == file_allocation_merge_cb && f->coarse == &g_coarse);
    /* two mappings made meanwhile */
    vp_fail_at = 0; for (int i = 1; i < 3; i++) { lo[i] = (uint64_t)i << 30; len[i] = PAGE; live[i] = true; cn_has[i] = true; cn_key[i] = lo[i]; cn_val[i] = len[i]; cn_c[i] = f->mmaps; }
    file_finalize(f);
    CHECK("destroying the provider releases everything", released());
    if (VP_CASE < 4) REACH("made", true);
}
//@ name=C28.file_reject props=C28 h=h_reject fn=file_initialize unwind=6
void h_reject(void) {
    setup(); vp_locks_reset(); void *prov = &g_p; g_par.path = NULL;
    CHECK("missing parameters are rejected", file_initialize(NULL, &prov) == UMF_RESULT_ERROR_INVALID_ARGUMENT && file_initialize(&g_par, &prov) == UMF_RESULT_ERROR_INVALID_ARGUMENT);
    g_par.path = g_path; g_par.protection = 1; g_par.visibility = (umf_memory_visibility_t)vp_u32("visibility"); ASSUME(g_par.visibility != UMF_MEM_MAP_PRIVATE && g_par.visibility != UMF_MEM_MAP_SHARED);
    umf_result_t r = file_initialize(&g_par, &prov);
    CHECK("an unknown visibility is rejected", r == UMF_RESULT_ERROR_INVALID_ARGUMENT || (r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY && vp_faults));
    CHECK("nothing is kept", prov == &g_p && released());
}
/* ---- parameters ---- */
//@ name=C27.file props=C27 h=h_par fn=umfFileMemoryProviderParamsCreate,umfFileMemoryProviderParamsDestroy,umfFileMemoryProviderParamsSetPath,umfFileMemoryProviderParamsSetProtection,umfFileMemoryProviderParamsSetVisibility unwind=8 cases=16 bounded="paths of at most 3 characters"
void h_par(void) {
    setup(); vp_fault_mode = 1; vp_fail_at = VP_CASE & 3; const int n = VP_CASE >> 2; static char path[4]; umf_file_memory_provider_params_handle_t h = NULL;
    for (int i = 0; i < 3; i++) { char c = (char)vp_range("character", 1, 127); path[i] = i < n ? c : 0; }
    umf_result_t r = umfFileMemoryProviderParamsCreate(&h, path);
    CHECK("an object is made exactly for a path, with memory", r == (VP_CASE & 3 && vp_faults ? UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY : n ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_INVALID_ARGUMENT));
    CHECK("a missing path or object is rejected", umfFileMemoryProviderParamsCreate(&h, NULL) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfFileMemoryProviderParamsCreate(NULL, path) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfFileMemoryProviderParamsSetPath(NULL, path) == UMF_RESULT_ERROR_INVALID_ARGUMENT
        && umfFileMemoryProviderParamsSetProtection(NULL, 1) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfFileMemoryProviderParamsSetVisibility(NULL, UMF_MEM_MAP_SHARED) == UMF_RESULT_ERROR_INVALID_ARGUMENT);
    if (r) { CHECK("a failed creation keeps nothing", h == NULL && vp_ba_live == 0); return; }
    char c0[4]; memcpy(c0, path, 4);
    CHECK("a new object has the documented defaults", h->protection == (UMF_PROTECTION_READ | UMF_PROTECTION_WRITE) && h->visibility == UMF_MEM_MAP_PRIVATE && strcmp(h->path, c0) == 0);
    unsigned v = vp_u32("value"), w = vp_u32("second value"); path[0] = '?';
    CHECK("the path is a copy", strcmp(h->path, c0) == 0);
    CHECK("protection is stored", umfFileMemoryProviderParamsSetProtection(h, v) == 0 && h->protection == v && h->visibility == UMF_MEM_MAP_PRIVATE && strcmp(h->path, c0) == 0);
    CHECK("visibility is stored", umfFileMemoryProviderParamsSetVisibility(h, (umf_memory_visibility_t)w) == 0 && h->protection == v && h->visibility == (umf_memory_visibility_t)w && strcmp(h->path, c0) == 0);
    CHECK("an empty or missing path is rejected and changes nothing", umfFileMemoryProviderParamsSetPath(h, "") == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfFileMemoryProviderParamsSetPath(h, NULL) == UMF_RESULT_ERROR_INVALID_ARGUMENT && strcmp(h->path, c0) == 0);
    vp_faults = 0; r = umfFileMemoryProviderParamsSetPath(h, "/b");
    CHECK("a new path replaces the old one, or nothing changes", r == (vp_faults ? UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY : UMF_RESULT_SUCCESS) && strcmp(h->path, r ? c0 : "/b") == 0 && h->protection == v && h->visibility == (umf_memory_visibility_t)w && vp_ba_live == 2);
    CHECK("destroying releases everything owned", umfFileMemoryProviderParamsDestroy(h) == 0 && vp_ba_live == 0 && umfFileMemoryProviderParamsDestroy(NULL) == 0);
}
