/* Contracts of src/provider/provider_os_memory.c (C19 mappings, C20 file ranges, C21 NUMA binding, C27 parameters, C28 creation). */
#define VP_BA
#define VP_LOCKS
#include <stddef.h>
static void *ba_hook(size_t s);
#define VP_BA_HOOK(s) ba_hook(s)
#include "vp.h"
#include <assert.h>
#include <limits.h>
#include <stdio.h>
#include <umf.h>
#include <umf/providers/provider_os_memory.h>
#include "base_alloc_global.h"
#include "critnib.h"
#include "umf_hwloc.h"
#include "utils_common.h"
#include "utils_concurrency.h"
#include "libumf.h"

#define U(p) ((uint64_t)(uintptr_t)(p))
#ifndef PAGE
#define PAGE 4096ULL
#endif
#define TOP (1ULL << 47)
#define RUP(x) (((x) + PAGE - 1) & ~(PAGE - 1))
/* ---- the kernel: mappings ---- */
static uint64_t b_next, b_end;
static int mm_n, mm_fd, mm_prot, mm_flags, mu_n, mu_fail, mm_fails; static uint64_t mm_lo, mm_hi, mm_lo0, mm_off, mm_len, mu_lo, mu_len; static bool g_ours;
void *utils_mmap(void *hint, size_t len, int prot, int flag, int fd, size_t off) {
    CHECK("no address is forced", hint == NULL);
    CHECK("one mapping is made", mm_n == 0); mm_n++;
    mm_fd = fd; mm_prot = prot; mm_flags = flag; mm_off = off; mm_len = len;
    uint64_t a = vp_u64("mapped address");
    if (vp_fail("mmap fails") || len == 0 || len > TOP || (fd > 0 && off % PAGE)) { mm_fails++; return NULL; }
    ASSUME(a && a % PAGE == 0 && a < TOP && RUP(len) <= TOP - a);
    mm_lo0 = mm_lo = b_next = a; mm_hi = b_end = a + RUP(len); g_ours = true;
    return (void *)(uintptr_t)a;
}
int utils_munmap(void *p, size_t len) {
    uint64_t a = U(p); mu_n++; mu_lo = a; mu_len = len;
    if (!g_ours) return (mu_fail = vp_fail("munmap fails")) ? (errno = vp_int("errno"), -1) : 0;
    CHECK("whole pages of this mapping are unmapped", a % PAGE == 0 && len > 0 && len <= TOP && a >= mm_lo && a + RUP(len) <= mm_hi);
    CHECK("only an end of the mapping is cut off", a == mm_lo || a + RUP(len) == mm_hi);
    if (a == mm_lo) mm_lo = a + RUP(len); else mm_hi = a;
    return 0;
}
int utils_purge(void *p, size_t n, int how);
size_t utils_get_page_size(void) { return PAGE; }
/* ---- the address map ---- */
struct critnib { int x; };
static critnib g_map; static int map_live;
static bool cn_has[2]; static uint64_t cn_key[2]; static uint64_t cn_val[2]; static int cn_ins, cn_rem; static bool cn_failed;
critnib *critnib_new(void) { if (vp_fail("no map")) return NULL; map_live++; return &g_map; }
void critnib_delete(critnib *c) { CHECK("the map is deleted once", c == &g_map && map_live > 0); map_live--; }
int critnib_insert(critnib *c, uintptr_t k, void *v, int upd) {
    CHECK("the provider's map, a non-empty value, and no replacement", c == &g_map && v && !upd); cn_ins++;
    for (int i = 0; i < 2; i++) if (cn_has[i] && cn_key[i] == k) return EEXIST;
    if ((cn_failed = vp_fail("map insertion fails"))) return ENOMEM;
    for (int i = 0; i < 2; i++) if (!cn_has[i]) { cn_has[i] = true; cn_key[i] = k; cn_val[i] = U(v); return 0; }
    return ENOMEM;
}
void *critnib_get(critnib *c, uintptr_t k) { CHECK("the provider's map", c == &g_map); for (int i = 0; i < 2; i++) if (cn_has[i] && cn_key[i] == k) return (void *)(uintptr_t)cn_val[i]; return NULL; }
void *critnib_remove(critnib *c, uintptr_t k) { void *v = critnib_get(c, k); cn_rem++; for (int i = 0; i < 2; i++) if (cn_has[i] && cn_key[i] == k) cn_has[i] = false; return v; }
/* ---- hwloc ---- */
struct hwloc_bitmap_s { uint64_t bits; bool live; };
#define NBM 5
static struct hwloc_bitmap_s g_bm0, g_bm1, g_bm2, g_bm3, g_bm4; static int bm_live;
static struct hwloc_bitmap_s *bm(int i) { return i == 0 ? &g_bm0 : i == 1 ? &g_bm1 : i == 2 ? &g_bm2 : i == 3 ? &g_bm3 : &g_bm4; }
hwloc_bitmap_t hwloc_bitmap_alloc(void) {
    if (vp_fail("no bitmap")) return NULL;
    for (int i = 0; i < NBM; i++) if (!bm(i)->live) { bm(i)->live = true; bm(i)->bits = 0; bm_live++; return bm(i); }
    ASSUME(0); return NULL;
}
hwloc_bitmap_t hwloc_bitmap_dup(hwloc_const_bitmap_t b) { hwloc_bitmap_t r = hwloc_bitmap_alloc(); if (r) r->bits = b->bits; return r; }
void hwloc_bitmap_free(hwloc_bitmap_t b) { if (!b) return; CHECK("a live bitmap is freed", b->live); b->live = false; bm_live--; }
int hwloc_bitmap_set(hwloc_bitmap_t b, unsigned i) { CHECK("a live bitmap is changed", b->live); if (vp_fail("bitmap set fails")) return -1; b->bits |= i < 64 ? 1ULL << i : 1ULL << 63; return 0; }
void hwloc_bitmap_zero(hwloc_bitmap_t b) { CHECK("a live bitmap is changed", b->live); b->bits = 0; }
int hwloc_bitmap_or(hwloc_bitmap_t r, hwloc_const_bitmap_t a, hwloc_const_bitmap_t b) { CHECK("live bitmaps are united", r->live && a->live && b->live); r->bits = a->bits | b->bits; return 0; }
static struct hwloc_bitmap_s g_all = {~0ULL, true};
hwloc_const_nodeset_t hwloc_topology_get_complete_nodeset(hwloc_topology_t t) { (void)t; return &g_all; }
static int topo_live, topo_loaded;
int hwloc_topology_init(hwloc_topology_t *t) { if (vp_fail("topology init fails")) return -1; *t = (hwloc_topology_t)(void *)&topo_live; topo_live++; return 0; }
int hwloc_topology_load(hwloc_topology_t t) { (void)t; if (vp_fail("topology load fails")) return -1; topo_loaded++; return 0; }
void hwloc_topology_destroy(hwloc_topology_t t) { CHECK("the topology is destroyed once", t == (hwloc_topology_t)(void *)&topo_live && topo_live > 0); topo_live--; }
int hwloc_bitmap_list_snprintf(char *b, size_t n, hwloc_const_bitmap_t m) { CHECK("printed into the buffer", n <= 1024 && m->live); b[0] = 0; return 0; }
static int b_n, b_policy, b_flags, b_errno; static uint64_t b_bits[8], b_len[8];
int hwloc_set_area_membind(hwloc_topology_t t, const void *a, size_t len, hwloc_const_bitmap_t set, hwloc_membind_policy_t pol, int flags) {
    (void)t;
    CHECK("bindings follow each other without gap or overlap and inside the allocation", U(a) == b_next && len > 0 && len % PAGE == 0 && len <= b_end - b_next);
    CHECK("the configured policy and flags are used", (int)pol == b_policy && flags == b_flags && set->live);
    b_next += len; if (b_n < 8) { b_bits[b_n] = set->bits; b_len[b_n] = len; } b_n++;
    if (vp_fail("binding fails")) { b_errno = vp_int("binding errno"); ASSUME(b_errno >= 0 && b_errno < 200); errno = b_errno; return -1; }
    return 0;
}
/* ---- files ---- */
static int fd_live, shm_live, g_pid; static uint64_t f_size; static int g_fd, dup_pid, dup_fd; static int n_unlink;
int utils_create_anonymous_fd(void) { if (vp_fail("no anonymous file")) return -1; fd_live++; return g_fd; }
int utils_set_file_size(int fd, size_t n) { CHECK("the own file is sized", fd == g_fd && fd_live == 1); if (vp_fail("file size fails")) return -1; f_size = n; return 0; }
int utils_close_fd(int fd) { CHECK("an open file is closed once", fd == g_fd && fd_live > 0); fd_live--; return 0; }
int utils_shm_create(const char *n, size_t s) { if (vp_fail("shm create fails")) return -1; f_size = s; fd_live++; return g_fd; }
static int o_fd; static bool o_shm;
int utils_shm_open(const char *n) { (void)n; o_shm = true; if (vp_fail("shm open fails")) return -1; fd_live++; return g_fd; }
int utils_shm_unlink(const char *n) { (void)n; n_unlink++; return 0; }
umf_result_t utils_duplicate_fd(int pid, int fd, int *out) { dup_pid = pid; dup_fd = fd; if (vp_fail("dup fails")) return UMF_RESULT_ERROR_NOT_SUPPORTED; fd_live++; *out = g_fd; return UMF_RESULT_SUCCESS; }
size_t get_max_file_size(void) { return INT64_MAX; }
int utils_getpid(void) { return g_pid; }
umf_result_t utils_translate_mem_protection_flags(unsigned in, unsigned *out) { if (in > 31) return UMF_RESULT_ERROR_INVALID_ARGUMENT; *out = in + 100; return UMF_RESULT_SUCCESS; }
umf_result_t utils_translate_mem_visibility_flag(umf_memory_visibility_t in, unsigned *out) { if (in != UMF_MEM_MAP_PRIVATE && in != UMF_MEM_MAP_SHARED) return UMF_RESULT_ERROR_INVALID_ARGUMENT; *out = (unsigned)in + 200; return UMF_RESULT_SUCCESS; }
void utils_strerror(int e, char *b, size_t n) { CHECK("room for the message", n > 0); (void)e; b[0] = 'm'; if (n > 1) b[1] = 0; }
int umfInit(void) { return 0; }
void libumfInit(void) {}
void utils_init_once(UTIL_ONCE_FLAG *f, void (*fn)(void)) { (void)f; fn(); }
/* strncpy by its contract, without its zero padding (the destinations are zeroed before) */
static char *my_strncpy(char *d, const char *s, size_t n) { for (size_t i = 0; i < 6; i++) { if (i == n) break; d[i] = s[i]; if (!s[i]) break; } return d; }
/* memset, by type */
static void *my_memset(void *p, int c, size_t n);
#define strncpy my_strncpy
#define memset my_memset
#include "provider_os_memory.c"
#undef strncpy
#undef memset
static void *my_memset(void *p, int c, size_t n) {
    if (c == 0 && n == sizeof(os_memory_provider_t)) *(os_memory_provider_t *)p = (os_memory_provider_t){0};
    else if (c == 0 && n == sizeof(membind_t)) *(membind_t *)p = (membind_t){0};
    else memset(p, c, n);
    return p;
}
#if defined(VP_NATIVE)
static void *ba_hook(size_t s) { return vp_malloc(s); }
#else
static void *ba_hook(size_t s) { /* typed objects */
    if (s == sizeof(os_memory_provider_t)) { os_memory_provider_t *o = malloc(sizeof(os_memory_provider_t)); ASSUME(o); return o; }
    if (s == sizeof(hwloc_bitmap_t)) { hwloc_bitmap_t *o = malloc(sizeof(hwloc_bitmap_t)); ASSUME(o); return o; }
    return vp_malloc(s);
}
#endif
static int p_how; static uint64_t p_ptr, p_len; static int p_n;
int utils_purge(void *p, size_t n, int how) { p_n++; p_ptr = U(p); p_len = n; p_how = how; if (vp_fail("purge fails")) { errno = vp_int("errno"); return -1; } return 0; }

static os_memory_provider_t g_p; static hwloc_bitmap_t g_ns[3];
static void setup(void) {
    vp_ba_reset(); vp_locks_reset(); vp_steps = vp_faults = 0; vp_fault_mode = 0;
    mm_n = mu_n = mm_fails = 0; mm_lo = mm_hi = 0; g_ours = false; cn_ins = cn_rem = 0; cn_failed = false; bm_live = 0; topo_live = topo_loaded = 0; b_n = 0; fd_live = 0; n_unlink = 0; p_n = 0; map_live = 0; o_shm = false; b_errno = 0;
    for (int i = 0; i < 2; i++) cn_has[i] = false;
    for (int i = 0; i < NBM; i++) { bm(i)->live = false; bm(i)->bits = 0; }
    memset(&g_p, 0, sizeof g_p); TLS_last_native_error.native_error = 0; TLS_last_native_error.errno_value = 0;
    g_p.fd_offset_map = &g_map; g_p.protection = vp_u32("protection"); g_p.visibility = vp_u32("visibility");
    g_fd = (int)vp_range("file descriptor", 1, INT_MAX); g_pid = vp_int("process");
}
static bool native(int e) { return TLS_last_native_error.native_error == e; }
/* no alignment, every power of two, and three pages: one case each */
#ifndef STEP
#define STEP 1
#endif
#define K (VP_CASE * STEP)
static uint64_t al(void) { return K == 0 ? 0 : K <= 64 ? 1ULL << ((K - 1) & 63) : 3 * PAGE; }
static bool g_far;
static void alloc_checks(bool shared) {
    setup(); g_far = false;
    uint64_t sz = vp_u64("size"), a = al(), fs = 0;
    ASSUME(sz > 0);
    g_p.fd = shared ? g_fd : -1;
    if (shared) { utils_mutex_init(&g_p.lock_fd); g_p.max_size_fd = vp_u64("limit"); fs = vp_u64("file used"); ASSUME(g_p.max_size_fd <= INT64_MAX && fs <= g_p.max_size_fd && fs % PAGE == 0); g_p.size_fd = fs; }
    uint64_t used = g_p.stats.allocated_memory = vp_u64("allocated"), peak = g_p.stats.peak_memory = vp_u64("peak"); ASSUME(used <= TOP);
    g_p.numa_policy = HWLOC_MEMBIND_DEFAULT;
    void *p = &g_p;
    umf_result_t r = os_alloc(&g_p, sz, a, &p);
    bool bad = a && a % PAGE && PAGE % a;
    CHECK("no lock stays held", vp_locks_held == 0);
    CHECK("alignments that are no multiple or divisor of the page size are rejected", IMP(bad, r == UMF_RESULT_ERROR_INVALID_ARGUMENT && mm_n == 0 && p == &g_p));
    if (r != UMF_RESULT_SUCCESS) {
        CHECK("a failure leaves nothing mapped and no result", mm_lo == mm_hi && p == &g_p && cn_ins == 0);
        CHECK("a failure records its native error", IMP(!bad, r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC && native(UMF_OS_RESULT_ERROR_ALLOC_FAILED)));
        CHECK("a failure is due to the arguments, the kernel or the limit", bad || mm_fails || (a > PAGE && sz > UINT64_MAX - a) || (shared && (sz > INT64_MAX - PAGE || a > INT64_MAX || RUP(sz + (a > PAGE ? a : 0)) > g_p.max_size_fd - fs)));
        CHECK("a failure does not count", g_p.stats.allocated_memory == used && g_p.stats.peak_memory == peak);
        CHECK("file space in use stays in use", g_p.size_fd >= fs && IMP(shared, g_p.size_fd <= g_p.max_size_fd));
    } else {
        uint64_t q = U(p);
        CHECK("the result is aligned", IMP(a, q % a == 0));
        CHECK("all requested bytes are mapped", q >= mm_lo && q < mm_hi && sz <= mm_hi - q);
        CHECK("everything beyond the pages of the request is unmapped again", mm_lo == q && mm_hi - q == RUP(sz));
        CHECK("the configured protection and visibility are mapped", mm_prot == (int)g_p.protection && mm_flags == (int)g_p.visibility && mm_fd == g_p.fd);
        CHECK("allocated and peak memory are counted", g_p.stats.allocated_memory == used + sz && g_p.stats.peak_memory == (peak > used + sz ? peak : used + sz));
        if (shared) {
            uint64_t off = mm_off + (q - mm_lo0);
            CHECK("the allocation's file range is new and within the limit", off >= fs && off % PAGE == 0 && RUP(sz) <= g_p.size_fd - off && g_p.size_fd <= g_p.max_size_fd && g_p.size_fd % PAGE == 0);
            CHECK("the offset recorded is where the allocation is in the file", IMP(!cn_failed, cn_ins == 1 && cn_key[0] == q && cn_val[0] == off + 1));
            g_far = off > 100000 && a > PAGE && q > mm_lo0;
        } else CHECK("private memory is not in any file", cn_ins == 0 && g_p.size_fd == 0);
        if (K == 20) REACH("aligned", mm_lo0 < q);
    }
    REACH("failed", r && !bad);
}
//@ name=C19.align props=C19 h=h_align fn=os_alloc unwind=6
void h_align(void) { /* alignments that are rejected or need no cutting */
    setup();
    uint64_t sz = vp_u64("size"), a = vp_u64("alignment"); ASSUME(sz > 0 && (a <= PAGE || a % PAGE));
    g_p.fd = -1; g_p.numa_policy = HWLOC_MEMBIND_DEFAULT;
    void *p = &g_p;
    umf_result_t r = os_alloc(&g_p, sz, a, &p);
    bool bad = a && a % PAGE && PAGE % a;
    CHECK("alignments that are no multiple or divisor of the page size are rejected", IMP(bad, r == UMF_RESULT_ERROR_INVALID_ARGUMENT && mm_n == 0 && p == &g_p));
    CHECK("others are not", IMP(!bad, IFF(r == UMF_RESULT_SUCCESS, !mm_fails)));
    CHECK("the result is aligned and mapped", IMP(r == UMF_RESULT_SUCCESS, IMP(a, U(p) % a == 0) && U(p) == mm_lo && mm_hi - mm_lo == RUP(sz)));
    REACH("rejected", bad); REACH("fine", r == 0 && a == 64);
}
//@ name=C19.alloc props=C19,C28,C29 h=h_alloc fn=os_alloc,utils_mmap_aligned unwind=6 cases=66 flags='--sat-solver cadical' assume="alignments: every power of two and three pages (others only up to rejection)"
void h_alloc(void) { alloc_checks(false); }
//@ name=C20.alloc_all tier=thorough props=C20,C19 h=h_alloc_shared fn=os_alloc,utils_mmap_aligned unwind=6 cases=66 flags='--sat-solver cadical' assume="alignments: every power of two and three pages (others only up to rejection)"
//@ name=C20.alloc props=C20,C19,C29 h=h_alloc_shared fn=os_alloc,utils_mmap_aligned unwind=6 defs=-DSTEP=5 cases=14 flags='--sat-solver cadical' assume="alignments: none, every fifth power of two and three pages (the thorough tier takes every power of two)"
void h_alloc_shared(void) { alloc_checks(true); if (K == 20) REACH("far", g_far); }
//@ name=C19.free props=C19,C20 h=h_free fn=os_free,os_purge_lazy,os_purge_force,os_get_min_page_size,os_get_recommended_page_size,os_get_name,os_get_last_native_error unwind=50
void h_free(void) {
    setup();
    g_p.fd = vp_bool("shared") ? g_fd : -1;
    uint64_t q = vp_u64("pointer"), sz = vp_u64("size"), used = g_p.stats.allocated_memory = vp_u64("allocated");
    ASSUME(used >= sz);
    cn_has[0] = g_p.fd > 0; cn_key[0] = q; cn_val[0] = 5; cn_has[1] = vp_bool("other"); cn_key[1] = vp_u64("other"); cn_val[1] = 7; ASSUME(cn_key[1] != q); bool other = cn_has[1];
    umf_result_t r = os_free(&g_p, (void *)(uintptr_t)q, sz);
    CHECK("freeing NULL does nothing", IMP(!q, r == UMF_RESULT_SUCCESS && mu_n == 0 && g_p.stats.allocated_memory == used));
    CHECK("exactly the given region is unmapped", IMP(q, mu_n == 1 && mu_lo == q && mu_len == sz));
    CHECK("its file range is forgotten, no other", IMP(q, !cn_has[0] && cn_has[1] == other && cn_val[1] == 7));
    CHECK("freed memory no longer counts", IMP(q && r == UMF_RESULT_SUCCESS, !mu_fail && g_p.stats.allocated_memory == used - sz));
    CHECK("a failure records its native error and counts nothing", IMP(q && r != UMF_RESULT_SUCCESS, mu_fail && r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC && native(UMF_OS_RESULT_ERROR_FREE_FAILED) && g_p.stats.allocated_memory == used));
    REACH("freed", q && r == 0 && g_p.fd > 0); REACH("failed", r != 0);
    bool lazy = vp_bool("lazy"); vp_faults = 0;
    r = lazy ? os_purge_lazy(&g_p, (void *)(uintptr_t)q, sz) : os_purge_force(&g_p, (void *)(uintptr_t)q, sz);
    CHECK("purging passes exactly the region and the way of purging on", p_n == 1 && p_ptr == q && p_len == sz && p_how == (lazy ? UMF_PURGE_LAZY : UMF_PURGE_FORCE));
    CHECK("a failed purge records its native error", vp_faults ? r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC && native(lazy ? UMF_OS_RESULT_ERROR_PURGE_LAZY_FAILED : UMF_OS_RESULT_ERROR_PURGE_FORCE_FAILED) : r == UMF_RESULT_SUCCESS);
    REACH("purge failed", r);
    size_t ps = 0;
    CHECK("the page size is the system's", os_get_min_page_size(&g_p, NULL, &ps) == UMF_RESULT_SUCCESS && ps == PAGE && os_get_recommended_page_size(&g_p, sz, &ps) == UMF_RESULT_SUCCESS && ps == PAGE);
    CHECK("the provider has its name", strcmp(os_get_name(&g_p), "OS") == 0);
    int e = (int)vp_range("native error", UMF_OS_RESULT_SUCCESS, UMF_OS_RESULT_ERROR_TOPO_DISCOVERY_FAILED), en = vp_int("stored errno"), got = 0; const char *m = NULL;
    os_store_last_native_error(e, en);
    os_get_last_native_error(&g_p, &m, &got);
    CHECK("the native error reported is the one recorded, with a message", got == e && m && m[0] != 0);
}
//@ name=C20.splitmerge props=C20 h=h_split fn=os_allocation_split,os_allocation_merge unwind=6
void h_split(void) {
    setup();
    bool shared = vp_bool("shared"); g_p.fd = shared ? g_fd : -1;
    uint64_t q = vp_range("pointer", 1, TOP), tot = vp_range("size", 2, TOP), first = vp_range("first", 1, TOP), off = vp_range("offset", 0, INT64_MAX); ASSUME(first < tot);
    cn_has[0] = shared && vp_bool("known"); cn_key[0] = q; cn_val[0] = off + 1; bool known = cn_has[0];
    umf_result_t r = os_allocation_split(&g_p, (void *)(uintptr_t)q, tot, first);
    CHECK("memory without a file is split freely", IMP(!shared, r == UMF_RESULT_SUCCESS && cn_ins == 0));
    CHECK("splitting fails only for memory without a recorded range or memory", IMP(shared, IFF(r == UMF_RESULT_SUCCESS, known && !cn_failed)));
    CHECK("both parts have exactly their file ranges", IMP(shared && r == UMF_RESULT_SUCCESS, cn_has[0] && cn_val[0] == off + 1 && cn_has[1] && cn_key[1] == q + first && cn_val[1] == off + first + 1));
    CHECK("a failed split changes nothing", IMP(r != UMF_RESULT_SUCCESS, cn_has[0] == known && cn_val[0] == off + 1 && !cn_has[1]));
    REACH("split", shared && r == 0); REACH("failed", shared && r && known);
    bool split = r == UMF_RESULT_SUCCESS;
    r = os_allocation_merge(&g_p, (void *)(uintptr_t)q, (void *)(uintptr_t)(q + first), tot);
    CHECK("merging leaves exactly the lower part's range", IMP(shared && split, r == UMF_RESULT_SUCCESS && cn_has[0] && cn_key[0] == q && cn_val[0] == off + 1 && !cn_has[1]));
    CHECK("merging an unknown part fails", IMP(shared && !split, r != UMF_RESULT_SUCCESS && cn_has[0] == known));
    CHECK("memory without a file is merged freely", IMP(!shared, r == UMF_RESULT_SUCCESS));
}
static struct { os_ipc_data_t d; char room[8]; } g_ipc;
//@ name=C20.ipc props=C20,C17,C28 h=h_ipc fn=os_get_ipc_handle_size,os_get_ipc_handle,os_put_ipc_handle,os_open_ipc_handle,os_close_ipc_handle unwind=10
void h_ipc(void) {
    setup();
    bool shared = vp_bool("shared"), named = shared && vp_bool("named"), known = vp_bool("known");
    g_p.IPC_enabled = shared; g_p.fd = shared ? g_fd : -1; strcpy(g_p.shm_name, named ? "/ab" : "");
    uint64_t q = vp_range("pointer", 1, TOP), sz = vp_range("size", 1, TOP), off = vp_range("offset", 0, INT64_MAX) & ~(PAGE - 1);
    cn_has[0] = known; cn_key[0] = q; cn_val[0] = off + 1; memset(&g_ipc, 0, sizeof g_ipc);
    size_t need = 0; int pid = g_pid;
    umf_result_t r = os_get_ipc_handle_size(&g_p, &need);
    CHECK("only shared memory has handles", IFF(r == UMF_RESULT_SUCCESS, shared));
    CHECK("the handle size covers the data and the name", IMP(shared, need >= sizeof(os_ipc_data_t) + (named ? 4 : 0)));
    r = os_get_ipc_handle(&g_p, (void *)(uintptr_t)q, sz, &g_ipc);
    CHECK("a handle is made exactly for known shared memory", IFF(r == UMF_RESULT_SUCCESS, shared && known) && IMP(r, r == UMF_RESULT_ERROR_INVALID_ARGUMENT));
    if (r) { REACH("unknown", shared); REACH("private", !shared); return; }
    os_ipc_data_t *d = &g_ipc.d;
    CHECK("the handle names exactly the file range, protection and visibility", d->pid == pid && d->fd_offset == off && d->size == sz && d->protection == g_p.protection && d->visibility == g_p.visibility);
    CHECK("the handle names the file", named ? d->shm_name_len == 3 && strcmp(d->shm_name, "/ab") == 0 : d->shm_name_len == 0 && d->fd == g_fd);
    bool here = vp_bool("same process"); if (!here) { g_pid = vp_int("other process"); ASSUME(g_pid != pid); }
    r = os_put_ipc_handle(&g_p, &g_ipc);
    CHECK("a handle is put back by the process that made it", IFF(r == UMF_RESULT_SUCCESS, here));
    void *p = NULL; vp_faults = 0; bool own = vp_bool("open by the same provider"); 
    os_memory_provider_t *o = &g_p; (void)own;
    r = os_open_ipc_handle(o, &g_ipc, &p);
    CHECK("the file descriptor used for opening is closed", fd_live == 0);
    CHECK("opening succeeds exactly if file and mapping are available", IFF(r == UMF_RESULT_SUCCESS, vp_faults == 0 && mm_fails == 0));
    CHECK("opening finds the file named in the handle", named ? o_shm : !o_shm && dup_pid == pid && dup_fd == g_fd);
    CHECK("opening maps exactly the range named, as named", IMP(mm_n, mm_fd == g_fd && mm_off == off && mm_len == sz && mm_prot == (int)d->protection && mm_flags == (int)d->visibility));
    CHECK("the result is the mapping", IMP(r == UMF_RESULT_SUCCESS, U(p) == mm_lo && mm_hi - mm_lo == RUP(sz)));
    CHECK("a failed mapping records its native error", IMP(mm_fails, r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC && native(UMF_OS_RESULT_ERROR_ALLOC_FAILED)));
    REACH("opened named", r == 0 && named); REACH("opened", r == 0 && !named); REACH("failed", mm_fails);
    g_ours = false; mu_n = 0; vp_faults = 0; sz = vp_u64("close size");
    r = os_close_ipc_handle(&g_p, (void *)(uintptr_t)q, sz);
    CHECK("closing unmaps exactly the given mapping", mu_n == 1 && mu_lo == q && mu_len == sz && IFF(r != UMF_RESULT_SUCCESS, mu_fail && sz) && IMP(r, native(UMF_OS_RESULT_ERROR_FREE_FAILED)));
}
/* ---- NUMA binding ---- */
static void numa(unsigned n, umf_numa_mode_t mode) {
    g_p.nodeset = g_ns; g_p.nodeset_len = n; g_p.mode = mode;
    for (unsigned i = 0; i < n; i++) { g_ns[i] = bm((int)i); bm((int)i)->live = true; bm((int)i)->bits = 1ULL << (i * 3); }
    bm_live = (int)n;
    g_p.fd = -1; g_p.numa_policy = b_policy = (int)vp_range("policy", 1, 5); g_p.numa_flags = b_flags = vp_int("flags"); b_n = 0;
}
static umf_result_t bound_alloc(uint64_t sz, unsigned n, uint64_t *q) {
    void *p = &g_p;
    umf_result_t r = os_alloc(&g_p, sz, 0, &p);
    *q = U(p);
    CHECK("every bitmap used for binding is given back", bm_live == (int)n);
    CHECK("a failure leaves nothing mapped and no result", IMP(r != UMF_RESULT_SUCCESS, mm_lo == mm_hi && p == &g_p));
    CHECK("a failed binding fails the allocation with its native error", IMP(r != UMF_RESULT_SUCCESS && mm_fails == 0, r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC && native(UMF_OS_RESULT_ERROR_BIND_FAILED)));
    CHECK("a failed binding is not ignored unless binding is not supported at all", IMP(b_errno && b_errno != ENOSYS, r != UMF_RESULT_SUCCESS));
    CHECK("successful means mapped", IMP(r == UMF_RESULT_SUCCESS, mm_lo == *q && mm_hi - mm_lo == RUP(sz)));
    return r;
}
static umf_numa_mode_t mode_single(void) { return (umf_numa_mode_t)vp_range("mode", UMF_NUMA_MODE_DEFAULT, UMF_NUMA_MODE_LOCAL); }
//@ name=C21.whole props=C21,C19,C28 h=h_bind1 fn=os_alloc,membindFirst,membindNext unwind=6
void h_bind1(void) {
    setup(); numa(1, mode_single()); g_p.part_size = vp_u64("part size");
    uint64_t sz = vp_u64("size"), q; ASSUME(sz > 0);
    umf_result_t r = bound_alloc(sz, 1, &q);
    CHECK("the whole page-rounded allocation is bound at once to the node set", IMP(r == UMF_RESULT_SUCCESS, b_n == 1 && b_len[0] == RUP(sz) && b_next == q + RUP(sz) && b_bits[0] == 1));
    REACH("bound", r == 0); REACH("failed", r && b_errno); REACH("unsupported", r == 0 && b_errno == ENOSYS);
}
//@ name=C21.interleave props=C21,C19,C28 h=h_bind2 fn=os_alloc,membindFirst,membindNext unwind=6 cases=8 bounded="allocations of at most 4 parts of 4 part sizes on 2 or 3 nodes (C21.interleave_step has no such bound)"
void h_bind2(void) {
    static const uint64_t parts[4] = {1, 4096, 3 * 4096 + 5, 1ULL << 30};
    unsigned n = 2 + vp_case(2);
    setup(); numa(n, UMF_NUMA_MODE_INTERLEAVE);
    uint64_t part = parts[VP_CASE & 3], sum = vp_u64("allocated before") & ((uint64_t[]){0x3f, 0x3ffff, 0xfffff, 0xfffffffffULL}[VP_CASE & 3]); g_p.part_size = part; g_p.alloc_sum = sum;
    uint64_t sz = vp_range("size", 1, TOP), q, step = RUP(part); ASSUME(RUP(sz) <= 4 * step);
    umf_result_t r = bound_alloc(sz, n, &q);
    uint64_t first = (sum / part) % n; 
    CHECK("the first part goes to the node after those of the allocations before", IMP(b_n > 0, b_bits[0] == 1ULL << (first * 3)));
    for (int i = 1; i < 4; i++) CHECK("consecutive parts go to consecutive nodes in cyclic order", IMP(i < b_n, b_bits[i] == (b_bits[i - 1] == 1ULL << ((n - 1) * 3) ? 1 : b_bits[i - 1] << 3)));
    for (int i = 0; i < 4; i++) CHECK("every part but the last has the part size rounded to pages", IMP(i + 1 < b_n, b_len[i] == step));
    CHECK("the bindings cover the allocation exactly", IMP(r == UMF_RESULT_SUCCESS, b_n > 0 && b_n <= 4 && b_next == q + RUP(sz) && b_len[b_n - 1] <= step));
    CHECK("interleaving goes on with the next allocation", IMP(b_n, g_p.alloc_sum == sum + RUP(sz)));
    REACH("several", r == 0 && b_n == 4); REACH("failed late", r && b_n == 3);
}
static hwloc_bitmap_t big[1000];
//@ name=C21.interleave_first props=C21 h=h_first fn=membindFirst unwind=6
void h_first(void) {
    setup(); unsigned n = (unsigned)vp_range("nodes", 2, 1000);
    g_p.mode = UMF_NUMA_MODE_INTERLEAVE; g_p.nodeset_len = n; g_p.nodeset = big; 
    uint64_t part = g_p.part_size = vp_range("part size", 1, TOP), sum = g_p.alloc_sum = vp_u64("allocated before"), sz = vp_range("size", 1, TOP), a = vp_range("address", 1, TOP); ASSUME(sz % PAGE == 0 && part);
    membind_t x = membindFirst(&g_p, (void *)(uintptr_t)a, sz, PAGE);
    CHECK("the first part goes to one of the nodes", x.node < n);
    CHECK("it has the part size rounded to pages, or the whole size", x.bind_size == (sz < RUP(part) ? sz : RUP(part)) && U(x.addr) == a && x.alloc_size == sz);
    CHECK("interleaving goes on with the next allocation", g_p.alloc_sum == sum + sz);
    REACH("whole", x.bind_size == sz && x.node == 7);
}
//@ name=C21.interleave_step props=C21 h=h_step fn=membindNext unwind=6
void h_step(void) { /* any iterator state, any number of nodes */
    setup(); memset(&g_p, 0, sizeof g_p);
    unsigned n = (unsigned)vp_range("nodes", 2, 1000); 
    g_p.mode = UMF_NUMA_MODE_INTERLEAVE; g_p.nodeset_len = n; g_p.nodeset = big; uint64_t part = g_p.part_size = vp_range("part size", 1, TOP);
    membind_t m; memset(&m, 0, sizeof m);
    uint64_t a = vp_range("address", 1, TOP); m.alloc_size = vp_range("left", 1, TOP); m.node = vp_u32("node"); m.page_size = PAGE; m.bind_size = vp_u64("bound"); m.addr = (char *)(uintptr_t)a;
    ASSUME(m.node < n && m.bind_size > 0 && m.bind_size <= m.alloc_size && m.alloc_size % PAGE == 0 && m.bind_size % PAGE == 0);
    unsigned want = m.node + 1 == n ? 0 : m.node + 1; big[want] = &g_bm2; uint64_t left = m.alloc_size - m.bind_size;
    membind_t x = membindNext(&g_p, m);
    CHECK("the next binding starts where the last one ends, what is left shrinks by it", U(x.addr) == a + m.bind_size && x.alloc_size == left);
    CHECK("the next part goes to the next node in cyclic order", IMP(left, x.node == want && x.bitmap == &g_bm2));
    CHECK("it has the part size rounded to pages, or what is left", x.bind_size == (left < RUP(part) ? left : RUP(part)) && x.bind_size % PAGE == 0);
    REACH("wraps", left && x.node == 0); REACH("done", !left);
}
//@ name=C21.split props=C21,C19,C28 h=h_bind3 fn=os_alloc,membindFirst,membindNext,nextBind unwind=9 cases=10 bounded="10 weightings of 2 or 3 partitions, allocations of at most 6 pages"
#define MAXP 6
void h_bind3(void) {
    static const unsigned ws[10][3] = {{1, 1, 0}, {1, 2, 0}, {3, 1, 0}, {4, 3, 0}, {1, 1, 1}, {1, 2, 1}, {1, 1, 4}, {4, 1, 1}, {2, 3, 4}, {1, 4, 1}};
    const unsigned n = VP_CASE < 4 ? 2 : 3; unsigned w[3], S = 0;
    setup(); numa(n, UMF_NUMA_MODE_SPLIT);
    static struct { unsigned weight; hwloc_bitmap_t target; } parts[3];
    for (unsigned i = 0; i < n; i++) { w[i] = ws[VP_CASE][i]; parts[i].weight = w[i]; parts[i].target = g_ns[i]; S += w[i]; }
    g_p.partitions = (void *)parts; g_p.partitions_len = n; g_p.partitions_weight_sum = S;
    uint64_t sz = vp_range("size", 1, MAXP * PAGE), q, pages = RUP(sz) / PAGE;
    umf_result_t r = bound_alloc(sz, n, &q);
    CHECK("the bindings cover the allocation exactly", IMP(r == UMF_RESULT_SUCCESS, b_n > 0 && b_n <= 8 && b_next == q + RUP(sz)));
    if (r == UMF_RESULT_SUCCESS) {
        uint64_t page = 0; bool good = true;
        for (int b = 0; b < 8; b++) if (b < b_n) {
            uint64_t k = b_len[b] / PAGE;
            for (uint64_t j = 0; j < MAXP; j++) if (j < k) {
                uint64_t want = 0; unsigned W = 0;
                for (unsigned i = 0; i < n; i++) { if (W * pages < (page + 1) * S && (W + w[i]) * pages > page * S) want |= 1ULL << (i * 3); W += w[i]; }
                good &= b_bits[b] == want; page++;
            }
        }
        CHECK("every page is bound to exactly the nodes whose weighted share it holds", good && page == pages);
    }
    if (VP_CASE == 0) REACH("shared page", r == 0 && b_n >= 3 && b_bits[1] == 9); REACH("failed late", r && b_n == 2);
}
/* ---- creation ---- */
static umf_os_memory_provider_params_t g_par; static unsigned g_list[2]; static umf_numa_split_partition_t g_part[2]; static char g_name[4];
static bool released(void) { return vp_ba_live == 0 && bm_live == 0 && topo_live == 0 && map_live == 0 && fd_live == 0 && vp_mutexes == 0; }
/* a configuration and the step that fails (0: none), one case each */
#define CFG (VP_CASE % 11)
static const struct { umf_numa_mode_t mode; unsigned n, np; bool shared, named; } g_cfg[11] = {
    {UMF_NUMA_MODE_DEFAULT, 0, 0, 0, 0}, {UMF_NUMA_MODE_BIND, 2, 0, 0, 0}, {UMF_NUMA_MODE_INTERLEAVE, 2, 0, 0, 0}, {UMF_NUMA_MODE_INTERLEAVE, 2, 2, 0, 0},
    {UMF_NUMA_MODE_PREFERRED, 1, 0, 0, 0}, {UMF_NUMA_MODE_PREFERRED, 0, 0, 0, 0}, {UMF_NUMA_MODE_SPLIT, 2, 0, 0, 0}, {UMF_NUMA_MODE_SPLIT, 2, 2, 0, 0}, {UMF_NUMA_MODE_LOCAL, 0, 0, 0, 0},
    {UMF_NUMA_MODE_DEFAULT, 0, 0, 1, 0}, {UMF_NUMA_MODE_DEFAULT, 0, 0, 1, 1}};
static void params(unsigned n, unsigned np) {
    umf_os_memory_provider_params_t *pp = &g_par; memset(pp, 0, sizeof *pp);
    pp->numa_list_len = n; pp->numa_list = n ? g_list : NULL; pp->partitions_len = np; pp->partitions = np ? g_part : NULL;
    for (int i = 0; i < 2; i++) { g_list[i] = (unsigned)vp_range("node", 0, 40); g_part[i].weight = vp_u32("weight"); g_part[i].target = (unsigned)vp_range("target", 0, 40); }
    pp->protection = vp_u32("protection"); pp->part_size = vp_u64("part size");
}
static bool bad_params(void) {
    umf_os_memory_provider_params_t *pp = &g_par; unsigned n = pp->numa_list_len, np = pp->partitions_len;
    bool many = pp->numa_mode == UMF_NUMA_MODE_DEFAULT || pp->numa_mode == UMF_NUMA_MODE_LOCAL ? n != 0 : pp->numa_mode == UMF_NUMA_MODE_PREFERRED ? false : n == 0;
    bool badpart = false; for (unsigned i = 0; i < 2; i++) if (i < np) badpart |= g_part[i].weight == 0 || !((n > 0 && g_list[0] == g_part[i].target) || (n > 1 && g_list[1] == g_part[i].target));
    return pp->protection > 31 || many || badpart || (pp->numa_mode == UMF_NUMA_MODE_INTERLEAVE && pp->part_size > UINT64_MAX - PAGE + 1);
}
//@ name=C28.os_create props=C28,C30,C19,C20 h=h_create fn=os_initialize,os_finalize,translate_params,initialize_nodeset,initializePartitions,validatePartitions,validatePartSize,validate_numa_mode,translate_numa_mode,dedicated_node_bind,getHwlocMembindFlags,create_fd_for_mmap,validate_and_copy_shm_name,free_bitmaps unwind=6 cases=165 bounded="at most 2 NUMA nodes and 2 partitions, one failing step, one part size" assume="one failing step per creation"
void h_create(void) {
    setup(); vp_mutex_init_may_fail = true; vp_fault_mode = 1; vp_fail_at = VP_CASE / 11;
    umf_os_memory_provider_params_t *pp = &g_par; const unsigned n = g_cfg[CFG].n, np = g_cfg[CFG].np; const umf_numa_mode_t mode = g_cfg[CFG].mode;
    const bool shared = g_cfg[CFG].shared, named = g_cfg[CFG].named, sep = mode == UMF_NUMA_MODE_SPLIT || CFG == 3;
    params(n, np); pp->numa_mode = mode; pp->visibility = shared ? UMF_MEM_MAP_SHARED : UMF_MEM_MAP_PRIVATE;
    ASSUME(!bad_params()); if (CFG == 2) pp->part_size = 0; if (CFG == 3) pp->part_size = 12345;
    strcpy(g_name, "ab"); pp->shm_name = named ? g_name : NULL;
    void *prov = &g_p;
    umf_result_t r = os_initialize(pp, &prov);
    if (r != UMF_RESULT_SUCCESS) {
        CHECK("creation fails only if a step fails", vp_faults > 0);
        CHECK("a failed creation releases everything", released());
        CHECK("a failed creation publishes nothing", prov == &g_p);
        return;
    }
    os_memory_provider_t *o = prov;
    CHECK("only the buffer for messages may be missing", IMP(vp_faults, !o->nodeset_str_buf));
    CHECK("protection and visibility are the configured ones", o->protection == pp->protection + 100 && o->visibility == (unsigned)pp->visibility + 200 && o->IPC_enabled == shared);
    CHECK("the memory policy is the configured mode's", (int)o->numa_policy == (mode == UMF_NUMA_MODE_DEFAULT ? (int)HWLOC_MEMBIND_DEFAULT : mode == UMF_NUMA_MODE_INTERLEAVE && !sep ? (int)HWLOC_MEMBIND_INTERLEAVE : (int)HWLOC_MEMBIND_BIND));
    CHECK("binding is strict exactly where nodes are chosen by the library or bind mode is asked for", o->numa_flags == (HWLOC_MEMBIND_BYNODESET | (mode == UMF_NUMA_MODE_BIND || sep ? HWLOC_MEMBIND_STRICT : 0)));
    CHECK("mode and part size are the configured ones", o->mode == mode && o->part_size == pp->part_size);
    CHECK("without nodes all nodes are meant", IMP(n == 0, o->nodeset_len == 1 && o->nodeset[0]->bits == ~0ULL));
    CHECK("the node set is exactly the configured nodes", IMP(n && !sep, o->nodeset_len == 1 && o->nodeset[0]->bits == ((1ULL << g_list[0]) | (n > 1 ? 1ULL << g_list[1] : 0))));
    if (sep) CHECK("nodes bound one by one keep their order", o->nodeset_len == 2 && o->nodeset[0]->bits == 1ULL << g_list[0] && o->nodeset[1]->bits == 1ULL << g_list[1]);
    if (mode == UMF_NUMA_MODE_SPLIT) {
        uint64_t S = 0; bool ok = o->partitions_len == 2;
        for (unsigned i = 0; i < 2; i++) { unsigned w = np ? g_part[i].weight : 1; S += w; ok &= o->partitions[i].weight == w && o->partitions[i].target->live && o->partitions[i].target->bits == 1ULL << (np ? g_part[i].target : g_list[i]); }
        CHECK("the partitions are exactly the configured ones, or equal ones", ok && o->partitions_weight_sum == S);
    }
    CHECK("shared memory has a file of the maximum size, private memory none", shared ? o->fd == g_fd && f_size == INT64_MAX && o->max_size_fd == INT64_MAX && vp_mutexes == 1 : o->fd == -1 && fd_live == 0);
    CHECK("no file space is used yet", o->size_fd == 0 && o->stats.allocated_memory == 0 && o->stats.peak_memory == 0 && o->alloc_sum == 0);
    CHECK("the shared memory name is kept", named ? o->shm_name[0] == '/' && o->shm_name[1] == 'a' && o->shm_name[2] == 'b' && o->shm_name[3] == 0 : o->shm_name[0] == 0);
    if (VP_CASE < 11) REACH("made", true);
    os_finalize(o);
    CHECK("destroying the provider releases everything", released());
}
/* one unusable parameter per case */
static const struct { umf_numa_mode_t mode; unsigned n, np, prot, vis, w, target; uint64_t part; bool slash; umf_result_t r; } g_rej[] = {
#define PRIV UMF_MEM_MAP_PRIVATE
#define BADA UMF_RESULT_ERROR_INVALID_ARGUMENT
    {UMF_NUMA_MODE_DEFAULT, 0, 0, 32, PRIV, 1, 3, 0, 0, BADA}, {UMF_NUMA_MODE_BIND, 2, 0, 0x80000001u, PRIV, 1, 3, 0, 0, BADA},
    {UMF_NUMA_MODE_DEFAULT, 0, 0, 1, 0, 1, 3, 0, 0, BADA}, {UMF_NUMA_MODE_SPLIT, 2, 2, 1, 99, 1, 3, 0, 0, BADA},
    {UMF_NUMA_MODE_DEFAULT, 1, 0, 1, PRIV, 1, 3, 0, 0, BADA}, {UMF_NUMA_MODE_DEFAULT, 2, 2, 1, PRIV, 1, 3, 0, 0, BADA}, {UMF_NUMA_MODE_LOCAL, 1, 0, 1, PRIV, 1, 3, 0, 0, BADA}, {UMF_NUMA_MODE_LOCAL, 2, 0, 1, PRIV, 1, 3, 0, 0, BADA},
    {UMF_NUMA_MODE_BIND, 0, 0, 1, PRIV, 1, 3, 0, 0, BADA}, {UMF_NUMA_MODE_INTERLEAVE, 0, 0, 1, PRIV, 1, 3, 0, 0, BADA}, {UMF_NUMA_MODE_SPLIT, 0, 0, 1, PRIV, 1, 3, 0, 0, BADA},
    {UMF_NUMA_MODE_SPLIT, 2, 2, 1, PRIV, 0, 3, 0, 0, BADA}, {UMF_NUMA_MODE_SPLIT, 2, 2, 1, PRIV, 1, 7, 0, 0, BADA}, {UMF_NUMA_MODE_SPLIT, 0, 2, 1, PRIV, 1, 7, 0, 0, BADA},
    {UMF_NUMA_MODE_INTERLEAVE, 2, 0, 1, PRIV, 1, 3, UINT64_MAX, 0, BADA}, {UMF_NUMA_MODE_INTERLEAVE, 2, 0, 1, PRIV, 1, 3, UINT64_MAX - PAGE + 2, 0, BADA},
    {UMF_NUMA_MODE_BIND, 1, 0, 1, UMF_MEM_MAP_SHARED, 1, 3, 0, 0, UMF_RESULT_ERROR_NOT_SUPPORTED}, {UMF_NUMA_MODE_INTERLEAVE, 2, 0, 1, UMF_MEM_MAP_SHARED, 1, 3, 0, 0, UMF_RESULT_ERROR_NOT_SUPPORTED},
    {UMF_NUMA_MODE_PREFERRED, 1, 0, 1, UMF_MEM_MAP_SHARED, 1, 3, 0, 0, UMF_RESULT_ERROR_NOT_SUPPORTED}, {UMF_NUMA_MODE_SPLIT, 2, 2, 1, UMF_MEM_MAP_SHARED, 1, 3, 0, 0, UMF_RESULT_ERROR_NOT_SUPPORTED}, {UMF_NUMA_MODE_LOCAL, 0, 0, 1, UMF_MEM_MAP_SHARED, 1, 3, 0, 0, UMF_RESULT_ERROR_NOT_SUPPORTED},
    {UMF_NUMA_MODE_DEFAULT, 0, 0, 1, UMF_MEM_MAP_SHARED, 1, 3, 0, 1, BADA}};
//@ name=C28.os_reject props=C28,C19 h=h_reject fn=os_initialize,translate_params,validatePartitions,validatePartSize,validate_numa_mode,validate_and_copy_shm_name unwind=6 cases=23 bounded="one concrete representative per kind of unusable parameter, at most 2 NUMA nodes and 2 partitions"
void h_reject(void) {
    setup(); vp_fault_mode = 1; vp_fail_at = 0;
    void *prov = &g_p; umf_os_memory_provider_params_t *pp = &g_par;
    if (VP_CASE == 22) { CHECK("missing parameters are rejected", os_initialize(NULL, &prov) == UMF_RESULT_ERROR_INVALID_ARGUMENT && prov == &g_p && released()); return; }
#if VP_CASE < 22
#define R g_rej[VP_CASE]
    g_par = (umf_os_memory_provider_params_t){0}; g_list[0] = 3; g_list[1] = 5; g_part[0].weight = 2; g_part[0].target = 5; g_part[1].weight = R.w; g_part[1].target = R.target;
    pp->numa_mode = R.mode; pp->numa_list_len = R.n; pp->numa_list = R.n ? g_list : NULL; pp->partitions_len = R.np; pp->partitions = R.np ? g_part : NULL;
    pp->protection = R.prot; pp->visibility = (umf_memory_visibility_t)R.vis; pp->part_size = R.part; strcpy(g_name, "a/"); pp->shm_name = R.slash ? g_name : NULL;
    umf_result_t r = os_initialize(pp, &prov);
    CHECK("unusable parameters are rejected, each with its error", R.slash ? r != UMF_RESULT_SUCCESS : r == R.r);
    CHECK("a rejected creation releases everything and publishes nothing", released() && prov == &g_p);
#endif
}
/* ---- parameters ---- */
static bool same_par(const umf_os_memory_provider_params_t *a, const umf_os_memory_provider_params_t *b, int but) {
    return (but == 0 || a->protection == b->protection) && (but == 1 || a->visibility == b->visibility) && (but == 2 || a->shm_name == b->shm_name) && (but == 3 || (a->numa_list == b->numa_list && a->numa_list_len == b->numa_list_len))
        && (but == 4 || a->numa_mode == b->numa_mode) && (but == 5 || a->part_size == b->part_size) && (but == 6 || (a->partitions == b->partitions && a->partitions_len == b->partitions_len));
}
static umf_os_memory_provider_params_t *some_params(void) {
    umf_os_memory_provider_params_handle_t h = NULL; vp_fault_mode = 1; vp_fail_at = 0;
    ASSUME(umfOsMemoryProviderParamsCreate(&h) == UMF_RESULT_SUCCESS);
    h->protection = vp_u32("protection"); h->visibility = (umf_memory_visibility_t)vp_u32("visibility"); h->numa_mode = (umf_numa_mode_t)vp_u32("mode"); h->part_size = vp_u64("part size");
    if (VP_CASE & 1) { h->shm_name = umf_ba_global_alloc(3); strcpy(h->shm_name, "xy"); h->numa_list = umf_ba_global_alloc(8); h->numa_list_len = 2; h->partitions = umf_ba_global_alloc(2 * sizeof(umf_numa_split_partition_t)); h->partitions_len = 2; }
    return h;
}
//@ name=C27.os_scalar props=C27 h=h_par_scalar fn=umfOsMemoryProviderParamsCreate,umfOsMemoryProviderParamsDestroy,umfOsMemoryProviderParamsSetProtection,umfOsMemoryProviderParamsSetVisibility,umfOsMemoryProviderParamsSetNumaMode,umfOsMemoryProviderParamsSetPartSize unwind=6 cases=2
void h_par_scalar(void) {
    setup(); umf_os_memory_provider_params_t *h = some_params(), old = *h; int live = (int)vp_ba_live;
    unsigned a = vp_u32("value"); uint64_t b = vp_u64("wide value");
    CHECK("setting succeeds", umfOsMemoryProviderParamsSetProtection(h, a) == 0);
    CHECK("protection is stored, nothing else changes", h->protection == a && same_par(h, &old, 0)); old.protection = a;
    CHECK("setting succeeds", umfOsMemoryProviderParamsSetVisibility(h, (umf_memory_visibility_t)a) == 0);
    CHECK("visibility is stored, nothing else changes", h->visibility == (umf_memory_visibility_t)a && same_par(h, &old, 1)); old.visibility = h->visibility;
    CHECK("setting succeeds", umfOsMemoryProviderParamsSetNumaMode(h, (umf_numa_mode_t)a) == 0);
    CHECK("the NUMA mode is stored, nothing else changes", h->numa_mode == (umf_numa_mode_t)a && same_par(h, &old, 4)); old.numa_mode = h->numa_mode;
    CHECK("setting succeeds", umfOsMemoryProviderParamsSetPartSize(h, b) == 0);
    CHECK("the part size is stored, nothing else changes", h->part_size == b && same_par(h, &old, 5));
    CHECK("a missing object is rejected", umfOsMemoryProviderParamsSetProtection(NULL, a) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfOsMemoryProviderParamsSetVisibility(NULL, 0) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfOsMemoryProviderParamsSetNumaMode(NULL, 0) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfOsMemoryProviderParamsSetPartSize(NULL, b) == UMF_RESULT_ERROR_INVALID_ARGUMENT
        && umfOsMemoryProviderParamsSetShmName(NULL, "a") == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfOsMemoryProviderParamsSetNumaList(NULL, g_list, 1) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfOsMemoryProviderParamsSetPartitions(NULL, g_part, 1) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfOsMemoryProviderParamsCreate(NULL) == UMF_RESULT_ERROR_INVALID_ARGUMENT);
    CHECK("nothing is allocated by scalars", (int)vp_ba_live == live);
    CHECK("destroying releases everything owned", umfOsMemoryProviderParamsDestroy(h) == 0 && vp_ba_live == 0);
    CHECK("destroying nothing is allowed", umfOsMemoryProviderParamsDestroy(NULL) == 0 && vp_ba_live == 0);
}
//@ name=C27.os_create props=C27 h=h_par_create fn=umfOsMemoryProviderParamsCreate,umfOsMemoryProviderParamsDestroy unwind=6 cases=2
void h_par_create(void) {
    setup(); vp_fault_mode = 1; vp_fail_at = VP_CASE; umf_os_memory_provider_params_handle_t h = NULL;
    umf_result_t r = umfOsMemoryProviderParamsCreate(&h);
    CHECK("creation fails exactly without memory", IFF(r == UMF_RESULT_SUCCESS, VP_CASE == 0) && IMP(r, r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY && h == NULL && vp_ba_live == 0));
    if (r == 0) CHECK("a new object has the documented defaults", h->protection == (UMF_PROTECTION_READ | UMF_PROTECTION_WRITE) && h->visibility == UMF_MEM_MAP_PRIVATE && !h->shm_name && !h->numa_list && !h->numa_list_len && h->numa_mode == UMF_NUMA_MODE_DEFAULT && h->part_size == 0 && !h->partitions && !h->partitions_len);
}
//@ name=C27.os_arrays props=C27 h=h_par_arrays fn=umfOsMemoryProviderParamsSetShmName,umfOsMemoryProviderParamsSetNumaList,umfOsMemoryProviderParamsSetPartitions,umfOsMemoryProviderParamsDestroy unwind=8 cases=48 bounded="strings and arrays of at most 3 elements"
#define LEN (VP_CASE / 2 % 4)
#define WHICH (VP_CASE / 8 % 3)
void h_par_arrays(void) {
    setup(); umf_os_memory_provider_params_t *h = some_params(), old = *h; int live = (int)vp_ba_live, had = VP_CASE & 1, fail = VP_CASE / 24;
    static char name[4]; static unsigned list[3]; static umf_numa_split_partition_t parts[3]; unsigned v[3], w[3];
    for (int i = 0; i < 3; i++) { v[i] = vp_u32("element"); w[i] = vp_u32("weight"); name[i] = i < LEN ? (char)(1 + v[i] % 127) : 0; list[i] = v[i]; parts[i].target = v[i]; parts[i].weight = w[i]; }
    bool none = vp_bool("no array"); vp_steps = 0; vp_fail_at = fail; umf_result_t r;
    if (WHICH == 0) r = umfOsMemoryProviderParamsSetShmName(h, none ? NULL : name); else if (WHICH == 1) r = umfOsMemoryProviderParamsSetNumaList(h, none ? NULL : list, LEN); else r = umfOsMemoryProviderParamsSetPartitions(h, none ? NULL : parts, LEN);
    bool allocates = WHICH == 0 ? !none : LEN > 0 && !none;
    if (WHICH && none && LEN) CHECK("a length without an array is rejected", r == UMF_RESULT_ERROR_INVALID_ARGUMENT);
    else CHECK("setting fails exactly without memory", r == (fail && allocates ? UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY : UMF_RESULT_SUCCESS));
    if (r) { CHECK("a rejected setting changes nothing", same_par(h, &old, -1) && (int)vp_ba_live == live); REACH("rejected", r); }
    else {
        CHECK("no other parameter changes", same_par(h, &old, WHICH == 0 ? 2 : WHICH == 1 ? 3 : 6));
        CHECK("the old value is released and a copy is kept", (int)vp_ba_live == live - had + allocates);
        char n0[4]; memcpy(n0, name, 4);
        for (int i = 0; i < 3; i++) { name[i] = 'q'; list[i] = ~v[i]; parts[i].target = parts[i].weight = ~v[i]; } /* the caller's changes must not show */
        if (WHICH == 0) CHECK("the name is the one given", none ? h->shm_name == NULL : strcmp(h->shm_name, n0) == 0);
        if (WHICH == 1) { bool same = h->numa_list_len == LEN; for (unsigned i = 0; i < LEN; i++) same &= h->numa_list[i] == v[i]; CHECK("the node list is the one given, in order", same && IFF(!h->numa_list, LEN == 0)); }
        if (WHICH == 2) { bool same = h->partitions_len == LEN; for (unsigned i = 0; i < LEN; i++) same &= h->partitions[i].target == v[i] && h->partitions[i].weight == w[i]; CHECK("the partitions are those given, in order", same && IFF(!h->partitions, LEN == 0)); }
    }
    CHECK("destroying releases everything owned", umfOsMemoryProviderParamsDestroy(h) == 0 && vp_ba_live == 0);
}
