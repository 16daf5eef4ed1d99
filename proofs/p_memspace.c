/* Contracts of src/memspace.c and src/memspaces (C25). The operations on single targets (src/memtarget.c,
 * verified in p_memtarget.c) are replaced by their contracts over ghost targets. */
#define VP_BA
#include <stddef.h>
static void *ba_hook(size_t s);
#define VP_BA_HOOK(s) ba_hook(s)
#include "vp.h"
#include <assert.h>
#include <umf.h>
#include "memspace_internal.h"
#include "memtarget_internal.h"
#include "memtarget_ops.h"
#include "utils_concurrency.h"
#include <hwloc.h>
#ifndef VP_CASE
#define VP_CASE 0
#endif
#define MAXN 4   /* targets in a space */
#define MAXT 11
#ifdef VP_NUM
#define NN VP_NUM
#else
#define NN VP_CASE
#endif
static void *ba_hook(size_t s) { return vp_malloc(s); }
void libumfInit(void) {}
static bool once_done; /* one flag is enough: each harness uses one space */
void utils_init_once(UTIL_ONCE_FLAG *f, void (*fn)(void)) { (void)f; if (!once_done) { once_done = true; fn(); } }
/* ---- ghost targets: a kind, an id and a capacity, alive or not ---- */
static struct umf_memtarget_ops_t opsA, opsB;
struct umf_memtarget_ops_t UMF_MEMTARGET_NUMA_OPS;
static umf_memtarget_t tg[MAXT]; static bool t_live[MAXT]; static uint32_t t_id[MAXT]; static uint64_t t_cap[MAXT]; static int t_n, t_lives;
static int idx_(const umf_memtarget_t *t) { for (int i = 0; i < MAXT; i++) if (t == &tg[i]) return i; return -1; }
static int idx(const umf_memtarget_t *t) { int i = idx_(t); CHECK("only existing targets are used", i >= 0 && t_live[i]); ASSUME(i >= 0); return i; }
static bool fresh(const umf_memtarget_t *t, int before) { int i = idx_(t); return i >= before && t_live[i]; }
static umf_memtarget_t *mk(uint32_t id, const struct umf_memtarget_ops_t *ops, uint64_t cap) { ASSUME(t_n < MAXT); int i = t_n++; tg[i].ops = ops; tg[i].priv = (void *)(uintptr_t)(0x1000 + 16 * i); t_live[i] = true; t_id[i] = id; t_cap[i] = cap; t_lives++; return &tg[i]; }
static umf_result_t step(const char *what) { return vp_fail(what) ? (umf_result_t)vp_range("error", 1, 8) : UMF_RESULT_SUCCESS; }
static umf_result_t last_err;
static umf_result_t fstep(const char *w) { umf_result_t r = step(w); if (r) last_err = r; return r; }
umf_result_t umfMemtargetCreate(const umf_memtarget_ops_t *ops, void *params, umf_memtarget_handle_t *t) { umf_result_t r = fstep("target cannot be made"); if (r) return r; CHECK("targets of a NUMA space are NUMA targets", ops == &UMF_MEMTARGET_NUMA_OPS); *t = mk(*(unsigned *)params, ops, vp_u64("capacity")); return r; }
umf_result_t umfMemtargetClone(umf_const_memtarget_handle_t t, umf_memtarget_handle_t *o) { int i = idx(t); umf_result_t r = fstep("clone fails"); if (r) return r; *o = mk(t_id[i], t->ops, t_cap[i]); return r; }
void umfMemtargetDestroy(umf_memtarget_handle_t t) { int i = idx(t); t_live[i] = false; t_lives--; }
umf_result_t umfMemtargetCompare(umf_const_memtarget_handle_t a, umf_const_memtarget_handle_t b, int *res) { int i = idx(a), j = idx(b); umf_result_t r = fstep("compare fails"); if (r) return r; *res = a->ops != b->ops ? -1 : t_id[i] != t_id[j]; return r; }
umf_result_t umfMemtargetGetId(umf_const_memtarget_handle_t t, unsigned *id) { int i = idx(t); umf_result_t r = fstep("id query fails"); if (r) return r; *id = t_id[i]; return r; }
umf_result_t umfMemtargetGetCapacity(umf_const_memtarget_handle_t t, size_t *c) { int i = idx(t); umf_result_t r = fstep("capacity query fails"); if (r) return r; *c = t_cap[i]; return r; }
static uint64_t bw[MAXN + 1][MAXN + 1];
static umf_result_t attr(umf_memtarget_handle_t s, umf_memtarget_handle_t d, size_t *v) { int i = idx(s), j = idx(d); umf_result_t r = fstep("attribute query fails"); if (r) return r; ASSUME(i <= MAXN && j <= MAXN); *v = bw[i][j]; return r; }
umf_result_t umfMemtargetGetBandwidth(umf_memtarget_handle_t s, umf_memtarget_handle_t d, size_t *v) { return attr(s, d, v); }
umf_result_t umfMemtargetGetLatency(umf_memtarget_handle_t s, umf_memtarget_handle_t d, size_t *v) { return attr(s, d, v); }
/* contract of qsort: some order of the same elements that agrees with the comparison */
static void vp_qsort(void *base, size_t n, size_t size, int (*cmp)(const void *, const void *));
#define qsort vp_qsort
/* ---- NUMA nodes of the machine ---- */
static struct hwloc_obj nodeobj[MAXN]; static int n_nodes; static bool no_topo;
#define umfGetTopology vp_topology
static hwloc_topology_t vp_topology(void) { return no_topo ? NULL : (hwloc_topology_t)&n_nodes; }
int hwloc_get_type_depth(hwloc_topology_t t, hwloc_obj_type_t y) { (void)t; CHECK("NUMA nodes are looked up", y == HWLOC_OBJ_NUMANODE); return -3; }
unsigned hwloc_get_nbobjs_by_depth(hwloc_topology_t t, int d) { (void)t; (void)d; return (unsigned)n_nodes; }
hwloc_obj_t hwloc_get_obj_by_depth(hwloc_topology_t t, int d, unsigned i) { (void)t; (void)d; return (int)i < n_nodes ? &nodeobj[i] : NULL; }
#define topology_h_done
#include "memspace.c"
#include "memspaces/memspace_numa.c"
#include "memspaces/memspace_host_all.c"
#include "memspaces/memspace_highest_capacity.c"
#include "memspaces/memspace_highest_bandwidth.c"
#include "memspaces/memspace_lowest_latency.c"
static void vp_qsort(void *base, size_t n, size_t size, int (*cmp)(const void *, const void *)) {
    struct memtarget_sort_entry *e = base, tmp[MAXN]; size_t p[MAXN];
    CHECK("the entries are sorted", size == sizeof(*e) && n <= MAXN); (void)cmp;
    for (size_t i = 0; i < NN; i++) { tmp[i] = e[i]; p[i] = vp_range("place", 0, NN - 1); for (size_t j = 0; j < i; j++) ASSUME(p[i] != p[j]); }
    for (size_t i = 0; i < NN; i++) e[i] = tmp[p[i]];
    for (size_t i = 0; i + 1 < NN; i++) ASSUME(propertyCmp(&e[i], &e[i + 1]) <= 0);
}
static struct umf_memspace_t *sp; static umf_memtarget_handle_t old[MAXN + 1]; static struct umf_memspace_t other;
/* a valid space: distinct targets of one kind */
static void setup(int n) {
    vp_ba_reset(); vp_steps = vp_faults = 0; vp_fault_mode = 0; t_n = t_lives = 0; once_done = false; last_err = 0; no_topo = false;
    vp_ba_nofail = true; sp = umf_ba_global_alloc(sizeof(*sp)); sp->size = (size_t)n; sp->nodes = NULL;
    if (n) sp->nodes = umf_ba_global_alloc((size_t)n * sizeof(umf_memtarget_handle_t));
    vp_ba_nofail = false; vp_ba_allocs = 0;
    for (int i = 0; i < n; i++) { old[i] = sp->nodes[i] = mk(vp_u32("id"), &opsA, vp_u64("capacity")); for (int j = 0; j < i; j++) ASSUME(t_id[i] != t_id[j]); }
}
static bool unchanged(int n) {
    if (sp->size != (size_t)n || vp_ba_live != 1 + (n > 0)) return false;
    for (int i = 0; i < n; i++) if (sp->nodes[i] != old[i] || !t_live[i]) return false;
    return true;
}
static umf_memtarget_t *arg_target(void) { umf_memtarget_t *t = mk(vp_u32("id"), vp_bool("other kind") ? &opsB : &opsA, vp_u64("capacity")); return t; }
//@ name=C25.add props=C25 h=h_add fn=umfMemspaceMemtargetAdd unwind=13 cases=5 flags='--sat-solver cadical' bounded="spaces of up to 4 targets"
void h_add(void) {
    setup(NN); umf_memtarget_t *t = arg_target(); int ti = t_n - 1, lives = t_lives;
    bool dup = false; for (int i = 0; i < NN; i++) if (t->ops == &opsA && t_id[ti] == t_id[i]) dup = true;
    bool mixed = NN && t->ops != &opsA;
    umf_result_t r = umfMemspaceMemtargetAdd(sp, t);
    CHECK("a target is added exactly if it is new, of the same kind and nothing fails", IFF(r == UMF_RESULT_SUCCESS, !dup && !mixed && !vp_faults));
    CHECK("a present target and one of another kind are rejected as invalid", IMP(!vp_faults && (dup || mixed), r == UMF_RESULT_ERROR_INVALID_ARGUMENT));
    CHECK("the given target stays the caller's", t_live[ti]);
    if (r) { CHECK("a failed addition changes nothing", unchanged(NN) && t_lives == lives); REACH("failed", r); return; }
    CHECK("the space has one target more, the others keep their order", sp->size == NN + 1 && vp_ba_live == 2); for (int i = 0; i < NN; i++) CHECK("the others stay", sp->nodes[i] == old[i] && t_live[i]);
    int k = idx_(sp->nodes[NN]); CHECK("the new target is an own copy of the given one", k > ti && t_live[k] && t_id[k] == t_id[ti] && tg[k].ops == t->ops && t_lives == lives + 1);
    CHECK("missing arguments are rejected", umfMemspaceMemtargetAdd(NULL, t) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfMemspaceMemtargetAdd(sp, NULL) == UMF_RESULT_ERROR_INVALID_ARGUMENT);
    REACH("added", true);
}
//@ name=C25.remove props=C25 h=h_remove fn=umfMemspaceMemtargetRemove unwind=13 flags='--sat-solver cadical' cases=5 bounded="spaces of up to 4 targets"
void h_remove(void) {
    setup(NN); umf_memtarget_t *t = vp_bool("a target of the space") && NN ? tg + vp_range("which", 0, NN ? NN - 1 : 0) : arg_target(); int ti = idx_(t), lives = t_lives, at = -1;
    for (int i = 0; i < NN; i++) if (t->ops == &opsA && t_id[ti] == t_id[i]) at = i;
    umf_result_t r = umfMemspaceMemtargetRemove(sp, t);
    CHECK("a target is removed exactly if it is present and nothing fails", IFF(r == UMF_RESULT_SUCCESS, at >= 0 && !vp_faults));
    CHECK("a missing target is rejected as invalid", IMP(!vp_faults && at < 0, r == UMF_RESULT_ERROR_INVALID_ARGUMENT));
    if (r) { CHECK("a failed removal changes nothing", unchanged(NN) && t_lives == lives); REACH("failed", r); return; }
    CHECK("the space has one target less", sp->size + 1 == NN && vp_ba_live == 1 + (NN > 1) && t_lives == lives - 1 && !t_live[at]);
    for (int i = 0; i + 1 < NN; i++) { int k = i < at ? i : i + 1; CHECK("the others keep their order", sp->nodes[i] == old[k] && t_live[k]); }
    if (NN == 1) CHECK("an empty space is usable", umfMemspaceMemtargetNum(sp) == 0 && umfMemspaceMemtargetGet(sp, 0) == NULL && sp->nodes == NULL);
    CHECK("missing arguments are rejected", umfMemspaceMemtargetRemove(NULL, t) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfMemspaceMemtargetRemove(sp, NULL) == UMF_RESULT_ERROR_INVALID_ARGUMENT);
    umfMemspaceDestroy(sp); CHECK("destroying a space releases it and its targets", vp_ba_live == 0 && t_lives == (ti >= NN));
}
//@ name=C25.clone props=C25 h=h_clone fn=umfMemspaceClone,umfMemspaceDestroy,umfMemspaceNew,umfMemspaceMemtargetNum,umfMemspaceMemtargetGet unwind=13 cases=5 bounded="spaces of up to 4 targets"
void h_clone(void) {
    setup(NN); umf_memspace_handle_t c = &other; umf_result_t r = umfMemspaceClone(sp, &c);
    CHECK("cloning fails exactly if a step fails", IFF(r != UMF_RESULT_SUCCESS, vp_faults)); CHECK("the original stays", sp->size == NN); for (int i = 0; i < NN; i++) CHECK("the original stays", sp->nodes[i] == old[i] && t_live[i]);
    if (r) { CHECK("a failed clone leaves nothing", unchanged(NN) && t_lives == NN && c == &other); REACH("failed", r); return; }
    CHECK("the clone has as many targets", c != sp && c->size == NN && umfMemspaceMemtargetNum(c) == NN && t_lives == 2 * NN && vp_ba_live == 2 * (1 + (NN > 0)));
    for (int i = 0; i < NN; i++) { int k = idx_(umfMemspaceMemtargetGet(c, (unsigned)i)); CHECK("the targets are own copies in the same order", k >= NN && t_live[k] && t_id[k] == t_id[i] && tg[k].ops == &opsA); for (int j = 0; j < i; j++) CHECK("copies are separate", c->nodes[i] != c->nodes[j]); }
    CHECK("no target is past the end", umfMemspaceMemtargetGet(c, NN) == NULL && umfMemspaceMemtargetGet(NULL, 0) == NULL && umfMemspaceMemtargetNum(NULL) == 0 && umfMemspaceMemtargetGet(c, vp_u32("far") | 8u) == NULL);
    umfMemspaceDestroy(c); CHECK("destroying the clone leaves the original", unchanged(NN) && t_lives == NN);
    CHECK("missing arguments are rejected", umfMemspaceClone(NULL, &c) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfMemspaceClone(sp, NULL) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfMemspaceNew(NULL) == UMF_RESULT_ERROR_INVALID_ARGUMENT);
    umfMemspaceDestroy(sp); CHECK("destroying releases everything", vp_ba_live == 0 && t_lives == 0);
    c = &other; r = umfMemspaceNew(&c); CHECK("a new space is empty", r ? r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY && c == &other && vp_ba_live == 0 : c->size == 0 && c->nodes == NULL && vp_ba_live == 1);
    REACH("cloned", true);
}
//@ name=C25.sort props=C25 h=h_sort fn=umfMemspaceSortDesc,propertyCmp,umfMemspaceHighestCapacityCreate unwind=13 cases=4 bounded="spaces of up to 3 targets" assume="qsort arranges the elements in an order that agrees with the comparison function"
void h_sort(void) {
    setup(NN ? NN : 1); struct memtarget_sort_entry a = {vp_u64("a"), 0}, b = {vp_u64("b"), 0};
    int ab = propertyCmp(&a, &b); CHECK("larger values come first", IFF(ab < 0, a.property > b.property) && IFF(ab > 0, a.property < b.property));
    if (!NN) return;
    umf_result_t r = umfMemspaceSortDesc(sp, (umfGetPropertyFn)&umfMemtargetGetCapacity);
    CHECK("sorting fails exactly if a step fails", IFF(r != UMF_RESULT_SUCCESS, vp_faults));
    if (r) { CHECK("a failed sort changes nothing", unchanged(NN) && t_lives == NN); REACH("failed", r); return; }
    CHECK("no target is lost", sp->size == NN && t_lives == NN && vp_ba_live == 2);
    for (int i = 0; i < NN; i++) { int k = idx_(sp->nodes[i]), n = 0; for (int j = 0; j < NN; j++) n += sp->nodes[j] == old[i]; CHECK("every target appears once", n == 1 && k >= 0 && k < NN); if (i) CHECK("the targets are in descending order", t_cap[idx_(sp->nodes[i - 1])] >= t_cap[k]); }
    CHECK("missing arguments are rejected", umfMemspaceSortDesc(NULL, (umfGetPropertyFn)&umfMemtargetGetCapacity) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfMemspaceSortDesc(sp, NULL) == UMF_RESULT_ERROR_INVALID_ARGUMENT);
    /* the space of the largest capacity: the same targets as the default space, largest first */
    UMF_MEMSPACE_HOST_ALL = sp; once_done = true; for (int i = 0; i < NN; i++) old[i] = sp->nodes[i];
    umf_memspace_handle_t h = &other; vp_faults = 0; last_err = 0; r = umfMemspaceHighestCapacityCreate(&h);
    CHECK("the space is made exactly if no step fails", IFF(r != UMF_RESULT_SUCCESS, vp_faults));
    if (r) { CHECK("a failed creation leaves nothing", unchanged(NN) && t_lives == NN && h == &other); return; }
    CHECK("the largest space has as many own targets", unchanged(NN) == false && h->size == NN && t_lives == 2 * NN);
    for (int i = 0; i < NN; i++) { int k = idx_(h->nodes[i]), n = 0; for (int j = 0; j < NN; j++) n += t_id[idx_(h->nodes[j])] == t_id[idx_(old[i])]; CHECK("every target of the default space is in it", n == 1 && k >= NN && t_live[k]); if (i) CHECK("the largest comes first", t_cap[idx_(h->nodes[i - 1])] >= t_cap[k]); }
    REACH("sorted", true);
}
/* ---- filters ---- */
static int f_n; static int f_ret[MAXN + 1]; static int f_arg;
static int user_filter(umf_const_memspace_handle_t m, umf_const_memtarget_handle_t t, void *a) {
    CHECK("the filter sees the complete space and each target in order", m == sp && a == &f_arg && f_n < NN && t == old[f_n] && sp->size == NN && t_live[f_n]); ASSUME(f_n < NN + 1);
    return f_ret[f_n++] = vp_int("decision");
}
static void kept_exactly(const bool *keep) {
    int k = 0; for (int i = 0; i < NN; i++) { CHECK("exactly the removed targets are destroyed", t_live[i] == keep[i]); if (keep[i]) { CHECK("kept targets stay in order", (size_t)k < sp->size && sp->nodes[k] == old[i]); k++; } }
    CHECK("the space has exactly the kept targets", sp->size == (size_t)k && t_lives == k && vp_ba_live == 1 + (k > 0));
}
//@ name=C25.user_filter props=C25 h=h_user fn=umfMemspaceUserFilter,umfMemspaceFilterHelper unwind=13 cases=5 bounded="spaces of up to 4 targets"
void h_user(void) {
    setup(NN); f_n = 0; umf_result_t r = umfMemspaceUserFilter(sp, user_filter, &f_arg);
    bool rej = f_n > 0 && f_ret[f_n - 1] < 0;
    CHECK("filtering fails exactly if the filter or a step fails", IFF(r != UMF_RESULT_SUCCESS, rej || vp_faults) && IMP(rej && !vp_faults, r == UMF_RESULT_ERROR_USER_SPECIFIC));
    if (r) { CHECK("a failed filtering changes nothing", unchanged(NN) && t_lives == NN); REACH("failed", r); return; }
    CHECK("every target is shown to the filter", f_n == NN); bool keep[MAXN + 1]; for (int i = 0; i < NN; i++) keep[i] = f_ret[i] > 0; kept_exactly(keep);
    CHECK("missing arguments are rejected", umfMemspaceUserFilter(NULL, user_filter, &f_arg) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfMemspaceUserFilter(sp, NULL, &f_arg) == UMF_RESULT_ERROR_INVALID_ARGUMENT);
    umfMemspaceDestroy(sp); CHECK("the space can be destroyed", vp_ba_live == 0 && t_lives == 0); REACH("filtered", true);
}
//@ name=C25.filter_id props=C25 h=h_fid fn=umfMemspaceFilterById,filterById,umfMemspaceFilterHelper unwind=13 cases=5 bounded="spaces of up to 4 targets, 2 ids"
void h_fid(void) {
    setup(NN); unsigned ids[2] = {vp_u32("id"), vp_u32("id")}; size_t n = vp_range("ids", 1, 2); umf_result_t r = umfMemspaceFilterById(sp, ids, n);
    CHECK("filtering fails exactly if a step fails, with its error", IFF(r != UMF_RESULT_SUCCESS, vp_faults) && IMP(last_err, r == last_err));
    if (r) { CHECK("a failed filtering changes nothing", unchanged(NN) && t_lives == NN); REACH("failed", r); return; }
    bool keep[MAXN + 1]; for (int i = 0; i < NN; i++) keep[i] = t_id[i] == ids[0] || (n == 2 && t_id[i] == ids[1]); kept_exactly(keep);
    CHECK("missing arguments are rejected", umfMemspaceFilterById(NULL, ids, n) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfMemspaceFilterById(sp, NULL, n) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfMemspaceFilterById(sp, ids, 0) == UMF_RESULT_ERROR_INVALID_ARGUMENT);
    REACH("filtered", true);
}
//@ name=C25.filter_capacity props=C25 h=h_fcap fn=umfMemspaceFilterByCapacity,filterByCapacity,umfMemspaceFilterHelper unwind=13 cases=5 bounded="spaces of up to 4 targets"
void h_fcap(void) {
    setup(NN); int64_t c = (int64_t)vp_u64("wanted capacity"); umf_result_t r = umfMemspaceFilterByCapacity(sp, c);
    CHECK("filtering fails exactly if a step fails or the capacity is negative", IFF(r != UMF_RESULT_SUCCESS, vp_faults || c < 0) && IMP(last_err, r == last_err) && IMP(c < 0, r == UMF_RESULT_ERROR_INVALID_ARGUMENT));
    if (r) { CHECK("a failed filtering changes nothing", unchanged(NN) && t_lives == NN); REACH("failed", r); return; }
    bool keep[MAXN + 1]; for (int i = 0; i < NN; i++) keep[i] = t_cap[i] >= (uint64_t)c; kept_exactly(keep);
    CHECK("missing arguments are rejected", umfMemspaceFilterByCapacity(NULL, 0) == UMF_RESULT_ERROR_INVALID_ARGUMENT);
    REACH("filtered", true);
}
/* ---- spaces of the best targets ---- */
static int g_pick[MAXN + 1], g_calls;
static umf_result_t get_target(umf_memtarget_handle_t from, umf_memtarget_handle_t *nodes, size_t n, umf_memtarget_handle_t *to) {
    CHECK("each target is asked for its best, once and in order", g_calls < NN && from == old[g_calls] && nodes == sp->nodes && n == NN); ASSUME(g_calls < NN + 1);
    umf_result_t r = fstep("no best target"); if (r) return r; g_pick[g_calls] = (int)vp_range("best", 0, NN ? NN - 1 : 0); *to = nodes[g_pick[g_calls++]]; return r;
}
//@ name=C25.filter_best props=C25 h=h_best fn=umfMemspaceFilter unwind=13 cases=3 bounded="spaces of up to 3 targets" defs="-DVP_NUM=(VP_CASE+1)"
//@ name=C25.filter_best_4 props=C25 h=h_best fn=umfMemspaceFilter unwind=13 tier=thorough cases=4 bounded="spaces of up to 4 targets" defs="-DVP_NUM=(VP_CASE+1)"
void h_best(void) {
    setup(NN); g_calls = 0; umf_memspace_handle_t o = &other; umf_result_t r = umfMemspaceFilter(sp, get_target, &o);
    CHECK("filtering fails exactly if a step fails", IFF(r != UMF_RESULT_SUCCESS, vp_faults)); for (int i = 0; i < NN; i++) CHECK("the original stays", sp->nodes[i] == old[i] && t_live[i] && sp->size == NN);
    if (r) { CHECK("a failed filtering leaves nothing", unchanged(NN) && t_lives == NN && o == &other); REACH("failed", r); return; }
    size_t k = 0; for (int i = 0; i < NN; i++) { bool first = true; for (int j = 0; j < i; j++) if (g_pick[j] == g_pick[i]) first = false;
        if (first) { CHECK("every best target is in the new space", k < o->size); int x = k < o->size ? idx_(o->nodes[k]) : -1; CHECK("as an own copy, once, in the order found", x >= NN && t_live[x] && t_id[x] == t_id[g_pick[i]]); k++; } }
    CHECK("nothing else is in the new space", o->size == k && t_lives == NN + (int)k && vp_ba_live == 4);
    CHECK("missing arguments are rejected", umfMemspaceFilter(NULL, get_target, &o) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfMemspaceFilter(sp, NULL, &o) == UMF_RESULT_ERROR_INVALID_ARGUMENT);
    REACH("filtered", true);
}
//@ name=C25.best_target props=C25 h=h_bw fn=getBestBandwidthTarget,getBestLatencyTarget unwind=13 cases=3 bounded="spaces of up to 3 targets" defs="-DVP_NUM=(VP_CASE+1)"
//@ name=C25.best_target_4 props=C25 h=h_bw fn=getBestBandwidthTarget,getBestLatencyTarget unwind=13 tier=thorough cases=4 bounded="spaces of up to 4 targets" defs="-DVP_NUM=(VP_CASE+1)"
void h_bw(void) {
    setup(NN); for (int i = 0; i < NN; i++) for (int j = 0; j < NN; j++) bw[i][j] = vp_u64("value"); int me = (int)vp_range("from", 0, NN - 1); umf_memtarget_handle_t t = NULL;
    umf_result_t r = getBestBandwidthTarget(old[me], sp->nodes, NN, &t); CHECK("the choice fails exactly if a query fails", IFF(r != UMF_RESULT_SUCCESS, vp_faults) && r == last_err);
    if (!r) { int k = idx_(t); CHECK("a target of the space is chosen", k >= 0 && k < NN); for (int j = 0; j < NN; j++) CHECK("no target has more bandwidth, the first one wins", bw[me][k] >= bw[me][j] && IMP(j < k, bw[me][j] < bw[me][k])); }
    vp_faults = 0; last_err = 0; t = NULL; r = getBestLatencyTarget(old[me], sp->nodes, NN, &t); CHECK("the choice fails exactly if a query fails", IFF(r != UMF_RESULT_SUCCESS, vp_faults) && r == last_err);
    if (!r) { int k = idx_(t); CHECK("a target of the space is chosen", k >= 0 && k < NN); for (int j = 0; j < NN; j++) CHECK("no target has less latency, the first one wins", bw[me][k] <= bw[me][j] && IMP(j < k, bw[me][j] > bw[me][k])); }
    CHECK("queries change nothing", unchanged(NN)); REACH("chosen", !r);
}
//@ name=C25.numa props=C25,C30 h=h_numa fn=umfMemspaceCreateFromNumaArray,umfMemspaceHostAllCreate unwind=13 cases=5 bounded="up to 4 NUMA nodes"
void h_numa(void) {
    setup(0); unsigned ids[MAXN + 1]; bool dup = false; n_nodes = NN;
    for (int i = 0; i < NN; i++) { ids[i] = vp_u32("node"); for (int j = 0; j < i; j++) if (ids[i] == ids[j]) dup = true; nodeobj[i].os_index = ids[i]; nodeobj[i].depth = -3; nodeobj[i].type = HWLOC_OBJ_NUMANODE; nodeobj[i].next_cousin = i + 1 < NN ? &nodeobj[i + 1] : NULL; }
    bool all = vp_bool("the default space"); no_topo = all && vp_bool("no topology"); if (all) ASSUME(!dup);
    umf_memspace_handle_t o = &other; umf_result_t r = all ? umfMemspaceHostAllCreate(&o) : umfMemspaceCreateFromNumaArray(ids, NN, &o);
    CHECK("a space is made exactly of one or more distinct nodes if no step fails", IFF(r == UMF_RESULT_SUCCESS, NN && !dup && !no_topo && !vp_faults));
    if (r) { CHECK("a failed creation leaves nothing", vp_ba_live == 1 && t_lives == 0 && o == &other); REACH("failed", r); return; }
    CHECK("the space has one target per node", o->size == NN && t_lives == NN && vp_ba_live == 3); for (int i = 0; i < NN; i++) { int k = idx_(o->nodes[i]); CHECK("the targets are the nodes in order", k >= 0 && t_live[k] && t_id[k] == ids[i]); }
    CHECK("missing arguments are rejected", umfMemspaceCreateFromNumaArray(NULL, NN, &o) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfMemspaceCreateFromNumaArray(ids, NN, NULL) == UMF_RESULT_ERROR_INVALID_ARGUMENT);
    umfMemspaceDestroy(o); CHECK("destroying releases the targets", vp_ba_live == 1 && t_lives == 0); REACH("made", true);
}
/* ---- providers and pools from a space ---- */
static int from_n; static umf_result_t from_r; static const struct umf_mempolicy_t *from_pol; static void *from_out; static int out_;
static umf_result_t from(umf_const_memspace_handle_t m, void **privs, size_t n, umf_const_mempolicy_handle_t p, void *out) { from_n++; CHECK("the operation gets the space, its policy and the place of the result", m == sp && n == NN && p == from_pol && out == from_out); for (int i = 0; i < NN; i++) CHECK("the operation gets the private parts of the targets in order", privs[i] == old[i]->priv); return from_r = fstep("operation fails"); }
static umf_result_t from_pool(umf_const_memspace_handle_t m, void **privs, size_t n, umf_const_mempolicy_handle_t p, umf_memory_pool_handle_t *out) { return from(m, privs, n, p, out); }
static umf_result_t from_prov(umf_const_memspace_handle_t m, void **privs, size_t n, umf_const_mempolicy_handle_t p, umf_memory_provider_handle_t *out) { return from(m, privs, n, p, out); }
//@ name=C30.from_space props=C30,C25 h=h_from fn=umfPoolCreateFromMemspace,umfMemoryProviderCreateFromMemspace,memoryTargetHandlesToPriv unwind=13 cases=5 bounded="spaces of up to 4 targets"
void h_from(void) {
    setup(NN); opsA.pool_create_from_memspace = from_pool; opsA.memory_provider_create_from_memspace = from_prov; from_n = 0; from_out = &out_; from_pol = (void *)(uintptr_t)vp_range("policy", 0, 1000);
    umf_result_t r = vp_bool("pool") ? umfPoolCreateFromMemspace(sp, from_pol, from_out) : umfMemoryProviderCreateFromMemspace(sp, from_pol, from_out);
    if (!NN) CHECK("an empty space is rejected", r == UMF_RESULT_ERROR_INVALID_ARGUMENT && from_n == 0);
    else CHECK("the operation of the targets decides, unless memory is short", from_n ? r == from_r : r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY && vp_faults);
    CHECK("the space stays and nothing is left", unchanged(NN) && t_lives == NN);
    CHECK("missing arguments are rejected", umfPoolCreateFromMemspace(NULL, from_pol, from_out) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfPoolCreateFromMemspace(sp, from_pol, NULL) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfMemoryProviderCreateFromMemspace(NULL, from_pol, from_out) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfMemoryProviderCreateFromMemspace(sp, from_pol, NULL) == UMF_RESULT_ERROR_INVALID_ARGUMENT);
}
