/* Contracts of src/ipc_cache.c (C18): two caches sharing the global list of up to three entries in any state satisfying the invariant. */
#define VP_BA
#define VP_LOCKS
#include "vp.h"
#include <assert.h>
#include <stdlib.h>
#include "base_alloc.h"
#include "base_alloc_global.h"
#include "ipc_cache.h"
#include "uthash.h"
#include "utlist.h"
#include "utils_common.h"
#include "utils_concurrency.h"

#define U(p) ((uint64_t)(uintptr_t)(p))
#define N 3
/* uthash, by its contract: a map from keys to elements per head */
#undef HASH_FIND
#undef HASH_ADD
#undef HASH_DELETE
#undef HASH_DELETE_HH
#undef HASH_ITER
#undef HASH_CLEAR
#define HASH_FIND(hh, head, kp, n, out) do { CHECK("keys are looked up whole", (n) == sizeof(ipc_opened_cache_key_t)); out = t_find(&(head), (kp)); } while (0)
#define HASH_ADD(hh, head, f, n, add) do { CHECK("keys are stored whole", (n) == sizeof((add)->f) && (const void *)&(add)->f == (const void *)&(add)->key); t_add(&(head), add); } while (0)
#define HASH_DELETE(hh, head, e) t_del(&(head), e)
#define HASH_ITER(hh, head, e, tmp) tmp = NULL; for (int vp_i = 0; vp_i <= N; vp_i++) if (g_in[vp_i] == &(head) && ((e) = at(vp_i)))
#define HASH_CLEAR(hh, head) CHECK("no element is dropped from the table unclosed", !t_any(&(head)))
typedef struct ipc_opened_cache_entry_t E;
static E *t_find(E **h, const ipc_opened_cache_key_t *k);
static void t_add(E **h, E *e), t_del(E **h, E *e);
static bool t_any(E **h);
static E *at(int i); static E **g_in[N + 1]; static bool g_alive[N + 1];
static const char *g_env; static uint64_t g_parsed; static bool g_whole;
#define getenv(s) g_env
static unsigned long my_strtoul(const char *s, char **e, int b) { CHECK("the limit is a decimal number", b == 10); *e = (char *)s + (g_whole ? 2 : 1); return g_parsed; }
#define strtoul my_strtoul
#include "ipc_cache.c"
#undef getenv
#undef strtoul

static E g_e0, g_e1, g_e2, g_e3;
static E *at(int i) { return i == 0 ? &g_e0 : i == 1 ? &g_e1 : i == 2 ? &g_e2 : &g_e3; }
static int idx(E *e) { for (int i = 0; i <= N; i++) if (e == at(i)) return i; CHECK("only entries of the cache are used", false); return 0; }
static bool same_key(const ipc_opened_cache_key_t *a, const ipc_opened_cache_key_t *b) { return a->remote_base_ptr == b->remote_base_ptr && a->local_provider == b->local_provider && a->remote_pid == b->remote_pid; }
static bool t_any(E **h) { bool b = false; for (int i = 0; i <= N; i++) b |= g_in[i] == h; return b; }
static E *t_find(E **h, const ipc_opened_cache_key_t *k) { for (int i = 0; i <= N; i++) if (g_in[i] == h && same_key(&at(i)->key, k)) return at(i); return NULL; }
static void t_add(E **h, E *e) { int i = idx(e); CHECK("an element is added to one table only", !g_in[i] && g_alive[i]); CHECK("keys are unique", !t_find(h, &e->key)); g_in[i] = h; *h = e; }
static void t_del(E **h, E *e) { int i = idx(e); CHECK("an element is removed from the table it is in", g_in[i] == h); g_in[i] = NULL; *h = t_any(h) ? e : NULL; }

static umf_ba_pool_t *const BA = (umf_ba_pool_t *)(void *)&g_env; static bool g_ba_made; static size_t g_ba_size;
umf_ba_pool_t *umf_ba_create(size_t n) { if (vp_fail("allocator fails")) return NULL; g_ba_size = n; g_ba_made = true; return BA; }
void umf_ba_destroy(umf_ba_pool_t *p) { CHECK("the allocator is destroyed once", p == BA && g_ba_made); g_ba_made = false; }
static int n_alloc, n_free, n_freed;
void *umf_ba_alloc(umf_ba_pool_t *p) {
    CHECK("entries come from the cache's allocator", p == BA);
    if (vp_fail("no entry")) return NULL;
    n_alloc++;
    for (int i = 0; i <= N; i++) if (!g_alive[i]) { g_alive[i] = true; return at(i); }
    return NULL;
}
void umf_ba_free(umf_ba_pool_t *p, void *q) { int i = idx(q); CHECK("entries go back to the cache's allocator once, and not while reachable", p == BA && g_alive[i] && !g_in[i]); g_alive[i] = false; n_free++; n_freed = i; }

static ipc_opened_cache_global_t g_glob; static ipc_opened_cache_t g_A, g_B; static E g_old[N + 1];
static int n, n_cb, cb_which; static ipc_opened_cache_key_t cb_key; static uint64_t cb_ptr, cb_size; static bool g_seen[N + 1];
static void cb(const ipc_opened_cache_key_t *k, const ipc_opened_cache_value_t *v) { n_cb++; cb_key = *k; cb_ptr = U(v->mapped_base_ptr); cb_size = v->mapped_size;
    for (int i = 0; i < N; i++) if (i < n && same_key(&g_old[i].key, k) && g_old[i].value.mapped_base_ptr == v->mapped_base_ptr && g_old[i].value.mapped_size == v->mapped_size && !g_seen[i] && g_old[i].hash_table == &g_A.hash_table) { g_seen[i] = true; break; } }
static ipc_opened_cache_key_t key(const char *what) { ipc_opened_cache_key_t k = {0}; (void)what; k.remote_base_ptr = (void *)(uintptr_t)vp_u64("key: base"); k.local_provider = (void *)(uintptr_t)vp_u64("key: provider"); k.remote_pid = vp_int("key: process"); return k; }
static void setup(int cnt) {
    vp_ba_reset(); vp_locks_reset(); vp_steps = vp_faults = 0; vp_fault_mode = 0; n_cb = n_alloc = n_free = 0; n = cnt; g_ba_made = true;
    memset(&g_A, 0, sizeof g_A); memset(&g_B, 0, sizeof g_B); memset(&g_glob, 0, sizeof g_glob);
    utils_mutex_init(&g_glob.cache_lock);
    g_glob.cache_allocator = BA; g_glob.max_size = vp_u64("limit"); g_glob.cur_size = (size_t)n; g_glob.lru_list = NULL;
    g_A.global = g_B.global = &g_glob; g_A.eviction_cb = g_B.eviction_cb = cb; IPC_OPENED_CACHE_GLOBAL = &g_glob;
    for (int i = 0; i <= N; i++) {
        memset(at(i), 0, sizeof(E)); g_in[i] = NULL; g_alive[i] = i < n; g_seen[i] = false;
        if (i >= n) continue;
        E *e = at(i);
        ipc_opened_cache_t *c = vp_bool("belongs to the other cache") ? &g_B : &g_A;
        e->key = key("entry"); e->ref_count = vp_u64("users"); e->handle_id = vp_u64("handle id"); e->hash_table = &c->hash_table;
        ASSUME(e->ref_count < UINT64_MAX);
        e->value.mapped_base_ptr = (void *)(uintptr_t)vp_u64("mapped base"); e->value.mapped_size = vp_u64("mapped size"); utils_mutex_init(&e->value.mmap_lock);
        for (int j = 0; j < i; j++) ASSUME(!(g_in[j] == &c->hash_table && same_key(&at(j)->key, &e->key)));
        g_in[i] = &c->hash_table; c->hash_table = e;
    }
    for (int i = 0; i < N; i++) if (i < n) { at(i)->prev = i ? at(i - 1) : at(n - 1); at(i)->next = i + 1 < n ? at(i + 1) : NULL; }
    if (n) g_glob.lru_list = at(0);
    for (int i = 0; i <= N; i++) g_old[i] = *at(i);
}
/* the list is exactly: first (if >= 0), then the old entries in their order except `out' and `first' */
static bool list_is(int first, int out) {
    E *p = g_glob.lru_list, *last = NULL, *head = p;
    if (first >= 0) { if (p != at(first)) return false; last = p; p = p->next; }
    for (int i = 0; i < N; i++) if (i < n && i != out && i != first) { if (p != at(i) || (last && p->prev != last)) return false; last = p; p = p->next; }
    return p == NULL && (head ? head->prev == last : !last);
}
static bool entry_kept(int i) { return g_alive[i] && g_in[i] == g_old[i].hash_table && same_key(&at(i)->key, &g_old[i].key) && at(i)->ref_count == g_old[i].ref_count && at(i)->handle_id == g_old[i].handle_id && at(i)->hash_table == g_old[i].hash_table && at(i)->value.mapped_base_ptr == g_old[i].value.mapped_base_ptr && at(i)->value.mapped_size == g_old[i].value.mapped_size; }
static bool others_kept(int a) { bool b = true; for (int i = 0; i < N; i++) if (i < n && i != a) b &= entry_kept(i); return b; }

//@ name=C18.get props=C18 h=h_get fn=umfIpcOpenedCacheGet cases=4 unwind=6 bounded="at most 3 opened mappings in the cache" assume="uthash is a map (its contract is specified, its code is not verified; it ends the process when its own table cannot be allocated)"
void h_get(void) {
    int cnt = VP_CASE;
    setup(cnt); vp_mutex_init_may_fail = true;
    ipc_opened_cache_key_t k = key("asked"), k0 = k; uint64_t id = vp_u64("asked handle id");
    bool noc = vp_bool("NULL cache"), nok = vp_bool("NULL key"), noo = vp_bool("NULL output");
    ipc_opened_cache_value_t *out = NULL;
    int locks0 = vp_mutexes;
    umf_result_t r = umfIpcOpenedCacheGet(noc ? NULL : &g_A, nok ? NULL : &k, id, noo ? NULL : &out);
    bool bad = noc || nok || noo;
    CHECK("no lock stays held", vp_locks_held == 0);
    CHECK("missing arguments are rejected", IMP(bad, r == UMF_RESULT_ERROR_INVALID_ARGUMENT));
    int hit = -1, cand = -1;
    for (int i = 0; i < N; i++) if (i < n) { if (g_old[i].hash_table == &g_A.hash_table && same_key(&g_old[i].key, &k0)) hit = i; if (g_old[i].ref_count == 0) cand = i; /* least recently used last */ }
    bool same = hit >= 0 && g_old[hit].handle_id == id;
    bool full = g_glob.max_size != 0 && (size_t)n >= g_glob.max_size;
    int victim = bad || same ? -1 : hit >= 0 ? hit : full ? cand : -1;
    CHECK("it fails only without arguments or memory", IFF(r != UMF_RESULT_SUCCESS, bad || vp_faults));
    if (r != UMF_RESULT_SUCCESS) {
        CHECK("a failure changes nothing", !out && list_is(-1, -1) && others_kept(-1) && g_glob.cur_size == (size_t)n && n_cb == 0 && vp_mutexes == locks0);
        CHECK("a failure leaks nothing", n_alloc == n_free);
        REACH("failed", n_free); REACH("no memory", !bad && !n_alloc);
        return;
    }
    E *e = (E *)(void *)((char *)out - offsetof(E, value)); int ei = idx(e);
    CHECK("the mapping got is the one asked for", same_key(&e->key, &k0) && e->handle_id == id && e->hash_table == &g_A.hash_table && g_in[ei] == &g_A.hash_table && g_alive[ei]);
    CHECK("the mapping got becomes the most recently used, all others keep their order", list_is(ei, victim));
    CHECK("opening the same handle again shares its mapping", IMP(same, ei == hit && e->ref_count == g_old[hit].ref_count + 1 && e->value.mapped_base_ptr == g_old[hit].value.mapped_base_ptr && e->value.mapped_size == g_old[hit].value.mapped_size && n_cb == 0 && g_glob.cur_size == (size_t)n));
    CHECK("a new mapping starts unopened with one user", IMP(!same, e->ref_count == 1 && !e->value.mapped_base_ptr && e->value.mapped_size == 0));
    CHECK("nothing is evicted unless the cache is full or the handle is stale", IMP(victim < 0, n_cb == 0 && (same || (n_alloc == 1 && ei >= n)) && others_kept(same ? hit : -1) && g_glob.cur_size == (size_t)n + (same ? 0 : 1)));
    if (victim >= 0) {
        CHECK("exactly the least recently used mapping without users is evicted", others_kept(victim) && n_cb == 1 && g_glob.cur_size == (size_t)n);
        CHECK("the evicted mapping is closed with its own identity", same_key(&cb_key, &g_old[victim].key) && cb_ptr == U(g_old[victim].value.mapped_base_ptr) && cb_size == g_old[victim].value.mapped_size);
        CHECK("making room never evicts a mapping in use", IMP(hit < 0, g_old[victim].ref_count == 0));
        CHECK("a stale mapping still in use is not evicted", IMP(hit >= 0, g_old[victim].ref_count == 0));
    }
    CHECK("every entry is accounted for", n_free == 0 && g_glob.cur_size == (size_t)(n + (n_alloc ? 1 : 0)));
    if (cnt == 3) { REACH("hit", same); REACH("evicted another cache's", victim >= 0 && g_old[victim].hash_table == &g_B.hash_table); REACH("all in use", full && cand < 0 && hit < 0); REACH("the middle one", victim == 1 && hit < 0); }
    if (cnt == 0) REACH("first", n_alloc == 1);
}
//@ name=C18.destroy props=C18,C28 h=h_destroy fn=umfIpcOpenedCacheDestroy cases=4 unwind=6 bounded="at most 3 opened mappings in the cache"
void h_destroy(void) {
    int cnt = VP_CASE;
    setup(cnt);
    ipc_opened_cache_t *c = umf_ba_global_alloc(sizeof *c); if (!c) return;
    *c = g_A; 
    for (int i = 0; i < N; i++) if (i < n && g_in[i] == &g_A.hash_table) { g_in[i] = &c->hash_table; at(i)->hash_table = &c->hash_table; }
    int mine = 0, locks0 = vp_mutexes; for (int i = 0; i < N; i++) if (i < n) mine += g_old[i].hash_table == &g_A.hash_table;
    umfIpcOpenedCacheDestroy(c);
    CHECK("no lock stays held", vp_locks_held == 0);
    CHECK("every mapping of the cache is closed exactly once", n_cb == mine);
    bool all = true, kept = true, order = true; E *p = g_glob.lru_list;
    for (int i = 0; i < N; i++) if (i < n) {
        if (g_old[i].hash_table == &g_A.hash_table) all &= g_seen[i] && !g_alive[i];
        else { kept &= entry_kept(i); order &= p == at(i); if (p) p = p->next; }
    }
    CHECK("each is closed with its own identity and given back", all);
    CHECK("mappings of other caches stay, in their order", kept && order && !p && g_glob.cur_size == (size_t)(n - mine));
    CHECK("no lock or memory is leaked", vp_mutexes == locks0 - mine && vp_ba_live == 0 && n_free == mine);
    if (cnt == 3) { REACH("some", mine == 2); } REACH("none", mine == 0);
}
//@ name=C18.release props=C18 h=h_release fn=umfIpcHandleMappedCacheRelease unwind=6
void h_release(void) {
    setup(1); bool none = vp_bool("NULL");
    ASSUME(at(0)->ref_count > 0);
    umf_result_t r = umfIpcHandleMappedCacheRelease(none ? NULL : &at(0)->value);
    CHECK("a missing mapping is rejected", IMP(none, r == UMF_RESULT_ERROR_INVALID_ARGUMENT && others_kept(-1)));
    g_old[0].ref_count--;
    CHECK("closing takes away exactly one user and nothing else", IMP(!none, r == UMF_RESULT_SUCCESS && others_kept(-1) && list_is(-1, -1) && n_cb == 0 && g_glob.cur_size == 1));
    REACH("last", !none && at(0)->ref_count == 0); REACH("more", !none && at(0)->ref_count > 4);
}
//@ name=C18.create props=C18,C28 h=h_create fn=umfIpcOpenedCacheCreate,umfIpcOpenedCacheDestroy unwind=6
void h_create(void) {
    setup(0); bool none = vp_bool("NULL callback");
    ipc_opened_cache_t *c = umfIpcOpenedCacheCreate(none ? NULL : cb);
    CHECK("a cache is made exactly with a callback and memory", IFF(c != NULL, !none && vp_ba_fails == 0));
    CHECK("it starts empty, in the shared list", IMP(c, !c->hash_table && c->eviction_cb == cb && c->global == &g_glob && g_glob.cur_size == 0));
    if (c) umfIpcOpenedCacheDestroy(c);
    CHECK("nothing stays behind", vp_ba_live == 0 && n_cb == 0);
    REACH("made", c != NULL); REACH("not made", !none && !c);
}
//@ name=C18.global props=C18,C28 h=h_global fn=umfIpcCacheGlobalInit,umfIpcCacheGlobalTearDown,umfIpcCacheGlobalInitMaxOpenedHandles unwind=6
void h_global(void) {
    setup(0); utils_mutex_destroy_not_free(&g_glob.cache_lock); vp_locks_reset(); vp_mutex_init_may_fail = true; g_ba_made = false; IPC_OPENED_CACHE_GLOBAL = NULL;
    static const char num[] = "12"; bool set = vp_bool("limit set"); g_env = set ? num : NULL; g_parsed = vp_u64("limit value"); g_whole = vp_bool("a number");
    umf_result_t r = umfIpcCacheGlobalInit();
    ipc_opened_cache_global_t *g = IPC_OPENED_CACHE_GLOBAL;
    CHECK("success means a cache", IFF(r == UMF_RESULT_SUCCESS, g != NULL));
    CHECK("it fails only if a step fails", IFF(r != UMF_RESULT_SUCCESS, vp_faults));
    if (g) {
        CHECK("the limit is the number set, or none", g->max_size == (set && g_whole ? g_parsed : 0));
        CHECK("it starts empty", g->cur_size == 0 && !g->lru_list && g->cache_allocator == BA && g_ba_size >= sizeof(E) && vp_mutexes == 1 && vp_ba_live == 1);
        REACH("limited", g->max_size == 3);
        umfIpcCacheGlobalTearDown();
    }
    CHECK("nothing stays behind", !IPC_OPENED_CACHE_GLOBAL && vp_ba_live == 0 && vp_mutexes == 0 && !g_ba_made);
    umfIpcCacheGlobalTearDown();
    REACH("failed", !g);
}
