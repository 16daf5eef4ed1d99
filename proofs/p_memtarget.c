/* Contracts of src/memtarget.c, src/memtargets/memtarget_numa.c and src/mempolicy.c (C25, C30). */
#define VP_BA
#include <stddef.h>
static void *ba_hook(size_t s);
#define VP_BA_HOOK(s) ba_hook(s)
#include "vp.h"
#include <assert.h>
#include <limits.h>
#include <umf.h>
#include <umf/providers/provider_os_memory.h>
#include "memspace_internal.h"
#include "memtarget_internal.h"
#include "memtarget_ops.h"
#include "mempolicy_internal.h"
#include <hwloc.h>
#ifndef VP_CASE
#define VP_CASE 0
#endif
#define NN VP_CASE
static void *ba_hook(size_t s) { return vp_malloc(s); }
void libumfInit(void) {}
#define P(x) ((void *)(uintptr_t)(x))
/* ---- the machine: three NUMA nodes, OS indexes differ from positions ---- */
static struct hwloc_obj node0, node1, node2; static union hwloc_obj_attr_u at0, at1, at2; static bool no_topo; static int topo_, csets[3];
static struct hwloc_obj *nodep(unsigned i) { return i == 0 ? &node0 : i == 1 ? &node1 : i == 2 ? &node2 : NULL; }
#define umfGetTopology vp_topology
static hwloc_topology_t vp_topology(void) { return no_topo ? NULL : (hwloc_topology_t)&topo_; }
int hwloc_get_type_depth(hwloc_topology_t t, hwloc_obj_type_t y) { CHECK("NUMA nodes are looked up", (void *)t == &topo_ && y == HWLOC_OBJ_NUMANODE); return -3; }
unsigned hwloc_get_nbobjs_by_depth(hwloc_topology_t t, int d) { (void)t; (void)d; return 3; }
hwloc_obj_t hwloc_get_obj_by_depth(hwloc_topology_t t, int d, unsigned i) { (void)t; (void)d; return nodep(i); }
static bool local; static void *ask_a, *ask_b;
int hwloc_bitmap_intersects(hwloc_const_bitmap_t a, hwloc_const_bitmap_t b) { ask_a = (void *)a; ask_b = (void *)b; return local; }
static int q_n; static hwloc_memattr_id_t q_id; static hwloc_obj_t q_to; static void *q_from; static uint64_t q_val; static int q_err;
int hwloc_memattr_get_value(hwloc_topology_t t, hwloc_memattr_id_t id, hwloc_obj_t to, struct hwloc_location *ini, unsigned long fl, hwloc_uint64_t *v) {
    CHECK("the attribute is asked of the cached topology, from a set of CPUs", (void *)t == &topo_ && fl == 0 && ini->type == HWLOC_LOCATION_TYPE_CPUSET); q_n++; q_id = id; q_to = to; q_from = (void *)ini->location.cpuset;
    if (vp_fail("attribute unknown")) { q_err = errno = vp_bool("no such attribute") ? EINVAL : ENOMEM; return -1; } *v = q_val = vp_u64("value"); return 0;
}
/* ---- the OS provider's parameter object ---- */
static struct { umf_numa_mode_t mode; unsigned list[4], len; bool list_null; void *parts; unsigned parts_len; size_t part_size; } got; static int par_live, made; static int parobj, provobj;
#define PH ((umf_os_memory_provider_params_handle_t)&parobj)
static umf_result_t err(const char *w) { return vp_fail(w) ? (umf_result_t)vp_range("error", 1, 8) : UMF_RESULT_SUCCESS; }
umf_result_t umfOsMemoryProviderParamsCreate(umf_os_memory_provider_params_handle_t *h) { umf_result_t r = err("no params"); if (r) return r; par_live++; *h = PH; return r; }
umf_result_t umfOsMemoryProviderParamsDestroy(umf_os_memory_provider_params_handle_t h) { CHECK("the parameters are destroyed once", h == PH && par_live == 1); par_live--; return UMF_RESULT_SUCCESS; }
umf_result_t umfOsMemoryProviderParamsSetNumaMode(umf_os_memory_provider_params_handle_t h, umf_numa_mode_t m) { CHECK("own parameters", h == PH && par_live == 1); umf_result_t r = err("mode"); if (!r) got.mode = m; return r; }
umf_result_t umfOsMemoryProviderParamsSetNumaList(umf_os_memory_provider_params_handle_t h, unsigned *l, unsigned n) { CHECK("own parameters", h == PH && par_live == 1); umf_result_t r = err("list"); if (r) return r; got.len = n; got.list_null = !l; CHECK("the list is not longer than the space", n <= 3); if (n > 3) n = 3; for (unsigned i = 0; i < n; i++) got.list[i] = l[i]; return r; }
umf_result_t umfOsMemoryProviderParamsSetPartitions(umf_os_memory_provider_params_handle_t h, umf_numa_split_partition_t *p, unsigned n) { CHECK("own parameters", h == PH && par_live == 1); umf_result_t r = err("partitions"); if (!r) { got.parts = p; got.parts_len = n; } return r; }
umf_result_t umfOsMemoryProviderParamsSetPartSize(umf_os_memory_provider_params_handle_t h, size_t n) { CHECK("own parameters", h == PH && par_live == 1); umf_result_t r = err("part size"); if (!r) got.part_size = n; return r; }
static umf_memory_provider_ops_t os_ops;
umf_memory_provider_ops_t *umfOsMemoryProviderOps(void) { return &os_ops; }
umf_result_t umfMemoryProviderCreate(const umf_memory_provider_ops_t *o, void *p, umf_memory_provider_handle_t *h) { CHECK("an OS provider is made of the complete parameters", o == &os_ops && p == PH && par_live == 1); umf_result_t r = err("provider"); if (!r) { made++; *h = (umf_memory_provider_handle_t)&provobj; } return r; }
static struct umf_memspace_t sp_all, sp_cap, sp_other;
umf_const_memspace_handle_t umfMemspaceHostAllGet(void) { return &sp_all; }
umf_const_memspace_handle_t umfMemspaceHighestCapacityGet(void) { return &sp_cap; }
#include "memtarget.c"
#include "memtargets/memtarget_numa.c"
#include "mempolicy.c"
static void setup(void) { vp_ba_reset(); vp_steps = vp_faults = 0; vp_fault_mode = 0; no_topo = false; par_live = made = q_n = 0; memset(&got, 0, sizeof(got)); errno = 0; }
/* ---- dispatch over any kind of target ---- */
static int o_n; static void *o_a, *o_b, *o_out; static umf_result_t o_r; static int privA, privB, privN; static umf_memtarget_type_t typeA, typeB; static int o_cmp;
static umf_result_t op(void *a, void *b, void *out) { o_n++; o_a = a; o_b = b; o_out = out; return o_r = err("operation fails"); }
static int fin_n; static void *fin_p;
static umf_result_t s_init(void *p, void **o) { umf_result_t r = op(p, NULL, NULL); if (!r) *o = &privN; return r; }
static void s_fin(void *p) { fin_n++; fin_p = p; }
static umf_result_t s_clone(void *t, void **o) { umf_result_t r = op(t, NULL, NULL); if (!r) *o = &privN; return r; }
static umf_result_t s_cap(void *t, size_t *c) { return op(t, NULL, c); }
static umf_result_t s_attr(void *s, void *d, size_t *v) { return op(s, d, v); }
static umf_result_t s_type(void *t, umf_memtarget_type_t *y) { *y = t == &privA ? typeA : typeB; return op(t, NULL, y); }
static umf_result_t s_id(void *t, unsigned *i) { return op(t, NULL, i); }
static umf_result_t s_cmp(void *a, void *b, int *r) { *r = o_cmp; return op(a, b, r); }
static umf_memtarget_ops_t sops = {.initialize = s_init, .finalize = s_fin, .clone = s_clone, .get_capacity = s_cap, .get_bandwidth = s_attr, .get_latency = s_attr, .get_type = s_type, .get_id = s_id, .compare = s_cmp}, sops2;
//@ name=C25.target props=C25,C30 h=h_target fn=umfMemtargetCreate,umfMemtargetDestroy,umfMemtargetClone,umfMemtargetCompare,umfMemtargetGetCapacity,umfMemtargetGetBandwidth,umfMemtargetGetLatency,umfMemtargetGetId,umfMemtargetGetType unwind=6
void h_target(void) {
    setup(); sops.version = vp_u32("version"); sops2 = sops; umf_memtarget_t a = {&sops, &privA}, b = {vp_bool("other operations") ? &sops2 : &sops, &privB}; fin_n = o_n = 0; size_t v; unsigned id; umf_memtarget_type_t ty; int cmp = 77;
    umf_memtarget_t mark, *h = &mark; int par; umf_result_t r = umfMemtargetCreate(&sops, &par, &h);
    if (r) CHECK("a failed creation leaves nothing", vp_faults && vp_ba_live == 0 && h == &mark && fin_n == 0 && IMP(o_n, r == o_r));
    else { CHECK("a target has the operations and what they made of the parameters", !vp_faults && o_n == 1 && o_a == &par && h->ops == &sops && h->priv == &privN && vp_ba_live == 1); umfMemtargetDestroy(h); CHECK("destroying releases the target and its private part", fin_n == 1 && fin_p == &privN && vp_ba_live == 0); }
    CHECK("missing arguments are rejected", umfMemtargetCreate(NULL, &par, &h) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfMemtargetCreate(&sops, &par, NULL) == UMF_RESULT_ERROR_INVALID_ARGUMENT && vp_ba_live == 0);
    setup(); o_n = fin_n = 0; r = umfMemtargetClone(&a, &h);
    if (r) CHECK("a failed clone leaves nothing", vp_faults && vp_ba_live == 0 && IMP(o_n, r == o_r)); else { CHECK("a clone has the same operations and an own private part", !vp_faults && h != &a && h->ops == &sops && h->priv == &privN && o_a == &privA && vp_ba_live == 1); umf_ba_global_free(h); }
    CHECK("cloning keeps the original", a.ops == &sops && a.priv == &privA && fin_n == 0);
    int what = (int)vp_range("query", 0, 5); setup(); o_n = 0;
    if (what == 0) CHECK("the capacity is the target's", umfMemtargetGetCapacity(&a, &v) == o_r && o_n == 1 && o_a == &privA && o_out == &v);
    if (what == 1) CHECK("the bandwidth is asked of both targets", umfMemtargetGetBandwidth(&a, &b, &v) == o_r && o_n == 1 && o_a == &privA && o_b == &privB && o_out == &v);
    if (what == 2) CHECK("the latency is asked of both targets", umfMemtargetGetLatency(&a, &b, &v) == o_r && o_n == 1 && o_a == &privA && o_b == &privB && o_out == &v);
    if (what == 3) CHECK("the id is the target's", umfMemtargetGetId(&a, &id) == o_r && o_n == 1 && o_a == &privA && o_out == &id);
    if (what == 4) CHECK("the type is the target's", umfMemtargetGetType(&a, &ty) == o_r && o_n == 1 && o_a == &privA && o_out == &ty);
    if (what == 5) {
        typeA = (umf_memtarget_type_t)vp_range("type", 0, 5); typeB = (umf_memtarget_type_t)vp_range("type", 0, 5); o_cmp = vp_int("comparison"); r = umfMemtargetCompare(&a, &b, &cmp);
        CHECK("comparing fails exactly if an operation fails, with its error", IFF(r != UMF_RESULT_SUCCESS, vp_faults) && r == o_r);
        if (!r) CHECK("0 for the same target, 1 for another of the same type, -1 for another type", cmp == (typeA != typeB ? -1 : o_cmp != 0) && IMP(typeA == typeB, o_a == &privA && o_b == &privB));
    }
    o_n = 0; umf_result_t I = UMF_RESULT_ERROR_INVALID_ARGUMENT;
    CHECK("missing arguments are rejected", umfMemtargetGetCapacity(NULL, &v) == I && umfMemtargetGetCapacity(&a, NULL) == I && umfMemtargetGetBandwidth(NULL, &b, &v) == I && umfMemtargetGetBandwidth(&a, NULL, &v) == I && umfMemtargetGetBandwidth(&a, &b, NULL) == I && umfMemtargetGetLatency(NULL, &b, &v) == I && umfMemtargetGetLatency(&a, NULL, &v) == I && umfMemtargetGetLatency(&a, &b, NULL) == I
        && umfMemtargetGetId(NULL, &id) == I && umfMemtargetGetId(&a, NULL) == I && umfMemtargetGetType(NULL, &ty) == I && umfMemtargetGetType(&a, NULL) == I && o_n == 0);
    REACH("compared", what == 5 && !r);
}
static void machine(void) {
    node0.os_index = vp_u32("OS index"); node1.os_index = vp_u32("OS index"); node2.os_index = vp_u32("OS index"); ASSUME(node0.os_index != node1.os_index && node0.os_index != node2.os_index && node1.os_index != node2.os_index);
    node0.next_cousin = &node1; node1.next_cousin = &node2; node2.next_cousin = NULL;
    for (unsigned i = 0; i < 3; i++) { nodep(i)->type = HWLOC_OBJ_NUMANODE; nodep(i)->depth = -3; nodep(i)->logical_index = i; nodep(i)->cpuset = (hwloc_cpuset_t)&csets[i]; }
    node0.attr = &at0; node1.attr = &at1; node2.attr = vp_bool("no attributes") ? NULL : &at2; at0.numanode.local_memory = vp_u64("memory"); at1.numanode.local_memory = vp_u64("memory"); at2.numanode.local_memory = vp_u64("memory");
}
static int node_of(unsigned id) { return node0.os_index == id ? 0 : node1.os_index == id ? 1 : node2.os_index == id ? 2 : -1; }
//@ name=C30.numa_target props=C30,C25 h=h_numa fn=numa_initialize,numa_finalize,numa_clone,numa_get_capacity,numa_get_type,numa_get_id,numa_compare,numa_get_bandwidth,numa_get_latency,query_attribute_value,memattr_get_worst_value,numa_pool_create_from_memspace unwind=8 bounded="a machine of three NUMA nodes"
void h_numa(void) {
    setup(); machine(); struct umf_numa_memtarget_config_t c = {vp_u32("id")}, d = {vp_u32("other id")}; umf_result_t I = UMF_RESULT_ERROR_INVALID_ARGUMENT; void *t = &c, *u = NULL;
    umf_result_t r = numa_initialize(&c, &t); CHECK("a target is made unless memory is short", r == (vp_faults ? UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY : UMF_RESULT_SUCCESS) && vp_ba_live == !r && IMP(r, t == &c)); if (r) return;
    vp_ba_nofail = true; numa_initialize(&d, &u); vp_ba_nofail = false;
    unsigned id = 0; umf_memtarget_type_t ty; int cmp = 9; CHECK("id and type", numa_get_id(t, &id) == 0 && id == c.physical_id && numa_get_type(t, &ty) == 0 && ty == UMF_MEMTARGET_TYPE_NUMA && numa_compare(t, u, &cmp) == 0 && cmp == (c.physical_id != d.physical_id));
    CHECK("missing arguments are rejected", numa_initialize(NULL, &t) == I && numa_initialize(&c, NULL) == I && numa_get_id(NULL, &id) == I && numa_get_id(t, NULL) == I && numa_get_type(NULL, &ty) == I && numa_get_type(t, NULL) == I && numa_compare(NULL, u, &cmp) == I && numa_compare(t, NULL, &cmp) == I && numa_compare(t, u, NULL) == I);
    no_topo = vp_bool("no topology"); size_t v = 0; int n = node_of(c.physical_id), m = node_of(d.physical_id); r = numa_get_capacity(t, &v);
    if (no_topo || n < 0 || !nodep((unsigned)n)->attr) CHECK("a missing topology, node or attribute is an error", r == (no_topo ? UMF_RESULT_ERROR_NOT_SUPPORTED : I)); else CHECK("the capacity is that of the node with the target's id", r == 0 && v == nodep((unsigned)n)->attr->numanode.local_memory);
    CHECK("missing arguments are rejected", numa_get_capacity(NULL, &v) == I && numa_get_capacity(t, NULL) == I);
    bool lat = vp_bool("latency"); local = vp_bool("local"); v = 123; vp_faults = 0; r = lat ? numa_get_latency(t, u, &v) : numa_get_bandwidth(t, u, &v);
    if (no_topo || n < 0 || m < 0) CHECK("a missing topology or node is an error", r == (no_topo ? UMF_RESULT_ERROR_NOT_SUPPORTED : I) && q_n == 0);
    else if (!local) CHECK("nodes that are not local have the worst value", r == 0 && v == (lat ? SIZE_MAX : 0) && q_n == 0);
    else if (vp_faults) CHECK("a failed query is an error", r == (q_err == EINVAL ? UMF_RESULT_ERROR_NOT_SUPPORTED : UMF_RESULT_ERROR_UNKNOWN));
    else CHECK("the value is the wanted attribute, from the nodes with the targets' ids", r == 0 && v == q_val);
    if (q_n) CHECK("the value is the wanted attribute, from the nodes with the targets' ids", q_n == 1 && q_id == (lat ? HWLOC_MEMATTR_ID_LATENCY : HWLOC_MEMATTR_ID_BANDWIDTH) && q_to == nodep((unsigned)m) && q_from == &csets[n] && ((ask_a == &csets[n] && ask_b == &csets[m]) || (ask_a == &csets[m] && ask_b == &csets[n])));
    CHECK("missing arguments are rejected", numa_get_latency(NULL, u, &v) == I && numa_get_latency(t, NULL, &v) == I && numa_get_latency(t, u, NULL) == I && numa_get_bandwidth(NULL, u, &v) == I && numa_get_bandwidth(t, NULL, &v) == I && numa_get_bandwidth(t, u, NULL) == I);
    REACH("asked", q_n && !r); void *w = &c; vp_faults = 0; r = numa_clone(t, &w); CHECK("a clone is another target with the same id", vp_faults ? r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY && w == &c : r == 0 && w != t && numa_get_id(w, &id) == 0 && id == c.physical_id);
    if (!r) numa_finalize(w); numa_finalize(t); numa_finalize(u); CHECK("destroying releases the targets", vp_ba_live == 0); CHECK("there are no pools of NUMA targets", numa_pool_create_from_memspace(NULL, NULL, 0, NULL, NULL) == UMF_RESULT_ERROR_NOT_SUPPORTED);
}
//@ name=C30.policy props=C30 h=h_policy fn=umfMempolicyCreate,umfMempolicyDestroy,umfMempolicySetInterleavePartSize,umfMempolicySetCustomSplitPartitions unwind=6
void h_policy(void) {
    setup(); umf_mempolicy_handle_t h = NULL; umf_mempolicy_membind_t k = (umf_mempolicy_membind_t)vp_range("mode", 0, 3); umf_result_t I = UMF_RESULT_ERROR_INVALID_ARGUMENT, r = umfMempolicyCreate(k, &h);
    CHECK("a policy is made unless memory is short", r == (vp_faults ? UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY : UMF_RESULT_SUCCESS) && vp_ba_live == !r && umfMempolicyCreate(k, NULL) == I); if (r) return;
    CHECK("a new policy has its mode and no parts", h->type == k && IMP(k == UMF_MEMPOLICY_INTERLEAVE, h->ops.interleave.part_size == 0) && IMP(k == UMF_MEMPOLICY_SPLIT, h->ops.split.part_len == 0));
    size_t n = vp_u64("part size"), l = vp_u64("partitions"); umf_mempolicy_split_partition_t part[2];
    r = umfMempolicySetInterleavePartSize(h, n); CHECK("only interleaving has a part size", r == (k == UMF_MEMPOLICY_INTERLEAVE ? UMF_RESULT_SUCCESS : I) && h->type == k && IMP(!r, h->ops.interleave.part_size == n) && IMP(k == UMF_MEMPOLICY_SPLIT, h->ops.split.part_len == 0));
    r = umfMempolicySetCustomSplitPartitions(h, part, l); CHECK("only splitting has partitions", r == (k == UMF_MEMPOLICY_SPLIT ? UMF_RESULT_SUCCESS : I) && h->type == k && IMP(!r, h->ops.split.part == part && h->ops.split.part_len == l) && IMP(k == UMF_MEMPOLICY_INTERLEAVE, h->ops.interleave.part_size == n));
    CHECK("missing policies are rejected", umfMempolicySetInterleavePartSize(NULL, n) == I && umfMempolicySetCustomSplitPartitions(NULL, part, l) == I);
    CHECK("destroying releases the policy", umfMempolicyDestroy(h) == UMF_RESULT_SUCCESS && vp_ba_live == 0); REACH("set", !r);
}
//@ name=C30.provider props=C30 h=h_prov fn=numa_memory_provider_create_from_memspace unwind=8 cases=4 bounded="up to three targets"
void h_prov(void) {
    setup(); struct numa_memtarget_t t[3]; void *priv[3]; for (int i = 0; i < 3; i++) { t[i].physical_id = vp_u32("node"); priv[i] = &t[i]; }
    struct umf_mempolicy_t pol; pol.type = (umf_mempolicy_membind_t)vp_range("mode", 0, 4); umf_mempolicy_split_partition_t part[2]; bool haspol = vp_bool("policy");
    if (pol.type == UMF_MEMPOLICY_SPLIT) { pol.ops.split.part = part; pol.ops.split.part_len = vp_u32("partitions"); } else pol.ops.interleave.part_size = vp_u64("part size");
    int which = (int)vp_range("space", 0, 2); umf_memory_provider_handle_t mark = (umf_memory_provider_handle_t)&parobj, h = mark;
    umf_result_t r = numa_memory_provider_create_from_memspace(which == 0 ? &sp_all : which == 1 ? &sp_cap : &sp_other, priv, NN, haspol ? &pol : NULL, &h);
    bool ok = !(haspol && pol.type > UMF_MEMPOLICY_SPLIT) && (NN > 0 || which == 1);
    if (which == 1 && NN == 0) return; /* a space of the library is never empty */
    CHECK("a provider is made exactly for a known policy and a space that is not empty, if no step fails", IFF(r == UMF_RESULT_SUCCESS, ok && !vp_faults) && IMP(!ok, r == UMF_RESULT_ERROR_INVALID_ARGUMENT));
    CHECK("nothing temporary is left", par_live == 0 && vp_ba_live == 0);
    if (r) { CHECK("a failed creation makes nothing", made == 0 && h == mark); return; }
    CHECK("one provider is made", made == 1 && h == (umf_memory_provider_handle_t)&provobj);
    if (!haspol && which == 0) CHECK("the default space leaves placement to the system", got.mode == UMF_NUMA_MODE_DEFAULT && got.len == 0 && got.list_null);
    else {
        unsigned n = which == 1 ? 1 : NN; CHECK("the nodes are those of the space, the highest capacity has the first one", got.len == n); for (unsigned i = 0; i < n; i++) CHECK("exactly the nodes, in order", got.list[i] == t[i].physical_id);
        umf_numa_mode_t m = !haspol || pol.type == UMF_MEMPOLICY_BIND ? UMF_NUMA_MODE_BIND : pol.type == UMF_MEMPOLICY_INTERLEAVE ? UMF_NUMA_MODE_INTERLEAVE : pol.type == UMF_MEMPOLICY_PREFERRED ? UMF_NUMA_MODE_PREFERRED : UMF_NUMA_MODE_SPLIT;
        CHECK("the mode is the policy's, binding without a policy", got.mode == m);
    }
    bool split = haspol && pol.type == UMF_MEMPOLICY_SPLIT, inter = haspol && pol.type == UMF_MEMPOLICY_INTERLEAVE;
    CHECK("partitions are those of a split policy only", got.parts == (split ? (void *)part : NULL) && got.parts_len == (split ? pol.ops.split.part_len : 0)); CHECK("the part size is that of an interleave policy only", got.part_size == (inter ? pol.ops.interleave.part_size : 0));
}
