/* Contracts of src/ipc.c (C17). */
#define VP_BA
#include "vp.h"
#include <assert.h>
#include <umf/ipc.h>
#include <umf/memory_pool.h>
#include <umf/memory_provider.h>
#include "ipc_internal.h"
#include "memory_pool_internal.h"
#include "memory_provider_internal.h"
#include "provider_tracking.h"
#include "utils_common.h"

#define U(p) ((uint64_t)(uintptr_t)(p))
static umf_memory_pool_t g_pool; static umf_memory_provider_t g_prov;
static umf_alloc_info_t g_info; static bool g_tracked; static umf_ipc_info_t g_ii; static bool g_mapped;
static uint64_t a_ptr, g_size, c_ptr, c_size, o_data; static int n_size, n_get, n_open, n_close; static umf_result_t r_size, r_get, r_open, r_close, r_track;
static uint64_t get_base, get_size, get_data, o_base; static int g_pid;
#define FAIL(r) (r = vp_fail("step fails") ? (umf_result_t)vp_range("error", 1, 8) : UMF_RESULT_SUCCESS)
umf_result_t umfMemoryTrackerGetAllocInfo(const void *p, umf_alloc_info_t *i) { a_ptr = U(p); if (!g_tracked) return r_track; *i = g_info; return UMF_RESULT_SUCCESS; }
umf_result_t umfMemoryTrackerGetIpcInfo(const void *p, umf_ipc_info_t *i) { a_ptr = U(p); if (!g_mapped) return r_track; *i = g_ii; return UMF_RESULT_SUCCESS; }
#define OURS CHECK("the wrapper of the pool is used", h == &g_prov)
umf_result_t umfMemoryProviderGetIPCHandleSize(umf_memory_provider_handle_t h, size_t *s) { OURS; n_size++; if (FAIL(r_size)) return r_size; *s = g_size; return r_size; }
umf_result_t umfMemoryProviderGetIPCHandle(umf_memory_provider_handle_t h, const void *p, size_t s, void *d) { OURS; n_get++; get_base = U(p); get_size = s; get_data = U(d); if (FAIL(r_get)) return r_get; if (g_size) *(char *)d = 42; return r_get; }
umf_result_t umfMemoryProviderOpenIPCHandle(umf_memory_provider_handle_t h, void *d, void **p) { OURS; n_open++; o_data = U(d); if (FAIL(r_open)) return r_open; *p = (void *)(uintptr_t)o_base; return r_open; }
umf_result_t umfMemoryProviderCloseIPCHandle(umf_memory_provider_handle_t h, void *p, size_t s) { OURS; n_close++; c_ptr = U(p); c_size = s; return FAIL(r_close); }
int utils_getpid(void) { return g_pid; }
#include "ipc.c"

static void setup(void) {
    vp_ba_reset(); vp_steps = vp_faults = 0; vp_fault_mode = 0;
    n_size = n_get = n_open = n_close = 0; r_size = r_get = r_open = r_close = 0; a_ptr = 0;
    g_pool.provider = &g_prov; g_prov.ops.version = UMF_PROVIDER_OPS_VERSION_CURRENT;
    g_size = vp_range("provider data size", 0, 4096);
    g_tracked = vp_bool("tracked"); g_mapped = vp_bool("mapped"); r_track = (umf_result_t)vp_range("tracker error", 1, 8);
    g_pid = vp_int("process");
}
//@ name=C17.get props=C17,C28 h=h_get fn=umfGetIPCHandle,umfPoolGetIPCHandleSize,umfPutIPCHandle unwind=3
void h_get(void) {
    setup();
    uint64_t base = vp_range("base", 1, UINT64_MAX), n = vp_u64("allocation size"), off = vp_u64("offset"); ASSUME(off < n && n <= UINT64_MAX - base);
    g_info.base = (void *)(uintptr_t)base; g_info.baseSize = n; g_info.pool = &g_pool;
    const void *ptr = vp_bool("NULL pointer") ? NULL : (void *)(uintptr_t)(base + off);
    umf_ipc_handle_t sent = (umf_ipc_handle_t)(void *)&g_pool, h = sent, *ph = vp_bool("NULL handle") ? NULL : &h;
    size_t sz = 77, *psz = vp_bool("NULL size") ? NULL : &sz;
    umf_result_t r = umfGetIPCHandle(ptr, ph, psz);
    bool bad = !ptr || !ph || !psz;
    CHECK("missing arguments are rejected", IMP(bad, r == UMF_RESULT_ERROR_INVALID_ARGUMENT && a_ptr == 0));
    CHECK("memory that is not tracked is rejected with the tracker's answer", IMP(!bad && !g_tracked, r == r_track && n_get == 0));
    CHECK("a handle is made exactly if every step succeeds", IMP(!bad && g_tracked, IFF(r == UMF_RESULT_SUCCESS, vp_faults == 0)));
    CHECK("failures are returned as they are", IMP(!bad && g_tracked && vp_faults, r == (r_size ? r_size : vp_ba_fails ? UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY : r_get)));
    if (r == UMF_RESULT_SUCCESS) {
        CHECK("the handle records base, size, process and offset of the allocation", U(h->base) == base && h->baseSize == n && h->pid == g_pid && h->offset == off);
        CHECK("the provider describes exactly this allocation, in the handle", n_get == 1 && get_base == base && get_size == n && get_data == U(h->providerIpcData));
        CHECK("the reported size covers the handle with the provider's data", sz == sizeof(umf_ipc_data_t) + g_size && vp_ba_live == 1);
        CHECK("the provider's data stay", IMP(g_size, h->providerIpcData[0] == 42));
        CHECK("putting the handle releases it", umfPutIPCHandle(h) == UMF_RESULT_SUCCESS && vp_ba_live == 0);
    } else CHECK("on failure nothing is published or leaked", h == sent && sz == 77 && vp_ba_live == 0);
    REACH("made", r == 0 && off > 5 && g_size > 9); REACH("rejected", bad); REACH("untracked", !bad && !g_tracked); REACH("provider failed", r_get != 0); REACH("no size", r_size != 0);
}
//@ name=C17.size props=C17 h=h_size fn=umfPoolGetIPCHandleSize,umfPoolGetIPCHandler
void h_size(void) {
    setup();
    bool nop = vp_bool("NULL pool"), noo = vp_bool("NULL output");
    size_t sz = 77;
    umf_result_t r = umfPoolGetIPCHandleSize(nop ? NULL : &g_pool, noo ? NULL : &sz);
    CHECK("missing arguments are rejected", IMP(nop || noo, r == UMF_RESULT_ERROR_INVALID_ARGUMENT && n_size == 0));
    CHECK("the size covers the provider's data", IMP(!nop && !noo, r == r_size && n_size == 1 && sz == (r ? 77 : sizeof(umf_ipc_data_t) + g_size)));
    umf_ipc_handler_handle_t hh = NULL;
    r = umfPoolGetIPCHandler(nop ? NULL : &g_pool, noo ? NULL : &hh);
    CHECK("the handler of a pool is its wrapper", nop || noo ? r == UMF_RESULT_ERROR_INVALID_ARGUMENT && !hh : r == UMF_RESULT_SUCCESS && U(hh) == U(&g_prov));
    REACH("ok", r == 0); REACH("failed", r_size != 0);
}
static struct { umf_ipc_data_t h; char d[8]; } g_h;
//@ name=C17.open props=C17 h=h_open fn=umfOpenIPCHandle
void h_open(void) {
    setup();
    o_base = vp_u64("mapped base"); g_h.h.offset = vp_u64("offset");
    g_prov.ops.version = vp_bool("a handler") ? UMF_PROVIDER_OPS_VERSION_CURRENT : vp_u32("version");
    void *p = &g_pool;
    umf_result_t r = umfOpenIPCHandle((umf_ipc_handler_handle_t)(void *)&g_prov, (umf_ipc_handle_t)(void *)&g_h, &p);
    bool bad = g_prov.ops.version != UMF_PROVIDER_OPS_VERSION_CURRENT;
    CHECK("something that is no handler is rejected", IMP(bad, r == UMF_RESULT_ERROR_INVALID_ARGUMENT && n_open == 0));
    CHECK("exactly the handle's data are opened once", IMP(!bad, n_open == 1 && o_data == U(g_h.h.providerIpcData) && r == r_open));
    CHECK("the result is the mapped base plus exactly the offset", IMP(r == UMF_RESULT_SUCCESS, U(p) == o_base + g_h.h.offset));
    CHECK("a failed open yields nothing", IMP(r != UMF_RESULT_SUCCESS, p == &g_pool));
    REACH("open", r == 0); REACH("failed", r && !bad); REACH("rejected", bad);
}
//@ name=C17.close props=C17 h=h_close fn=umfCloseIPCHandle
void h_close(void) {
    setup();
    uint64_t b = vp_u64("mapped base"), n = vp_u64("mapped size"), p = vp_u64("pointer");
    g_ii.base = (void *)(uintptr_t)b; g_ii.baseSize = n; g_ii.provider = &g_prov;
    umf_result_t r = umfCloseIPCHandle((void *)(uintptr_t)p);
    CHECK("the mapping the pointer lies in is looked up", a_ptr == p);
    CHECK("exactly that mapping is closed", IMP(g_mapped, n_close == 1 && c_ptr == b && c_size == n && r == r_close));
    CHECK("a pointer into no mapping closes nothing", IMP(!g_mapped, n_close == 0 && r == r_track));
    REACH("closed", r == 0); REACH("unknown", !g_mapped);
}
