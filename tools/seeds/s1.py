import sys; sys.path.insert(0,'/verif/tools')
from mkseed import make
PRV=r'''
#include <umf/memory_provider.h>
#include <umf/memory_provider_ops.h>
#include <umf/memory_pool.h>
#include <umf/pools/pool_disjoint.h>
#include <umf/providers/provider_os_memory.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
static struct { char *p; size_t n; } reg[4096]; static int nreg; static int live; static long page = 4096; static size_t al = 4096, off;
static int allocs, frees; static umf_result_t init_(void *p, void **o) { (void)p; *o = &live; return 0; }
static void fini(void *p) { (void)p; }
static umf_result_t alloc_(void *p, size_t n, size_t a, void **r) { (void)p; allocs++; if (a < al) a = al; if (posix_memalign(r, a, n + 8192)) return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY; *r = (char *)*r + off; reg[nreg].p = *r; reg[nreg++].n = n; live++; return 0; }
static umf_result_t free_(void *p, void *q, size_t n) { (void)p; frees++; for (int i = 0; i < nreg; i++) if (reg[i].p == q) { if (reg[i].n != n) { printf("freed with size %zu, allocated with %zu\n", n, reg[i].n); exit(3);} reg[i] = reg[--nreg]; live--; free((char *)q - off); return 0; } printf("free of unknown\n"); exit(4); }
static void gle(void *p, const char **m, int32_t *e) { (void)p; *m = ""; *e = 0; }
static umf_result_t ps(void *p, size_t s, size_t *o) { (void)p; (void)s; *o = page; return 0; }
static umf_result_t mps(void *p, void *q, size_t *o) { (void)p; (void)q; *o = page; return 0; }
static const char *nm(void *p) { (void)p; return "p"; }
static umf_memory_provider_ops_t OPS = {.version = UMF_PROVIDER_OPS_VERSION_CURRENT, .initialize = init_, .finalize = fini, .alloc = alloc_, .free = free_, .get_last_native_error = gle, .get_recommended_page_size = ps, .get_min_page_size = mps, .get_name = nm};
#define CHK(c) do { if (!(c)) { printf("FAILED: %s\n", #c); exit(1); } } while (0)
static umf_memory_provider_handle_t prov;
static umf_memory_pool_handle_t mkpool(size_t slab, size_t maxp, size_t cap, size_t minb, umf_disjoint_pool_shared_limits_handle_t lim) {
  umf_disjoint_pool_params_handle_t q; umf_memory_pool_handle_t pool;
  if (!prov) CHK(!umfMemoryProviderCreate(&OPS, NULL, &prov));
  CHK(!umfDisjointPoolParamsCreate(&q));
  CHK(!umfDisjointPoolParamsSetSlabMinSize(q, slab)); CHK(!umfDisjointPoolParamsSetMaxPoolableSize(q, maxp));
  CHK(!umfDisjointPoolParamsSetCapacity(q, cap)); CHK(!umfDisjointPoolParamsSetMinBucketSize(q, minb));
  if (lim) CHK(!umfDisjointPoolParamsSetSharedLimits(q, lim));
  CHK(!umfPoolCreate(umfDisjointPoolOps(), prov, q, 0, &pool)); umfDisjointPoolParamsDestroy(q); return pool; }
'''
make('C02-halfway','C02','a request of exactly 1.5 * 2^k bytes','sizes that are exactly a middle class are served from the next larger class',
 [('src/pool/pool_disjoint.c','(bool)((size - 1) & ((uint64_t)(1) << (position - 1)))','(bool)(size & ((uint64_t)(1) << (position - 1)))')],
 PRV+r'''int main(void){ umf_memory_pool_handle_t p=mkpool(65536,1<<20,4,8,NULL); for(size_t k=8;k<=4096;k*=2){ size_t s=k+k/2; void*a=umfPoolMalloc(p,s); CHK(a); CHK(umfPoolMallocUsableSize(p,a)==s); umfPoolFree(p,a);} umfPoolDestroy(p); umfMemoryProviderDestroy(prov); return 0; }''')
make('C01-roundup','C01','a size class that does not divide the slab size, filled to the last block of a slab','the last block of a slab reaches past the end of the slab memory',
 [('src/pool/pool_disjoint.c','utils_max(bucket_slab_min_size(bucket) / bucket->size, 1);','(bucket_slab_min_size(bucket) + bucket->size - 1) / bucket->size;\n    num_chunks_total = utils_max(num_chunks_total, 1);')],
 PRV+r'''int main(void){ umf_memory_pool_handle_t p=mkpool(65536,1<<20,4,8,NULL); for(int i=0;i<700;i++){ char*a=umfPoolMalloc(p,96); CHK(a); int ok=0; for(int k=0;k<nreg;k++) if(a>=reg[k].p && a+96<=reg[k].p+reg[k].n) ok=1; CHK(ok);} return 0; }''')
make('C04-usable','C04','a pointer from aligned_malloc whose alignment exceeds the provider page size','usable size of an over-aligned block covers bytes of the next block',
 [('src/pool/pool_disjoint.c','    return slab->bucket->size - diff;','    return diff < (ptrdiff_t)slab->bucket->size ? slab->bucket->size : 0;')],
 PRV+r'''int main(void){ page=64; off=64; umf_memory_pool_handle_t p=mkpool(65536,1<<20,4,8,NULL); for(int i=0;i<100;i++){ char*a=umfPoolAlignedMalloc(p,100,128); char*b=umfPoolAlignedMalloc(p,100,128); CHK(a&&b); size_t n=umfPoolMallocUsableSize(p,a); CHK(n>=100); if(b>a) CHK(a+n<=b); char *lo=(char*)((uintptr_t)0); for(int k=0;k<nreg;k++) if(a>=reg[k].p&&a<reg[k].p+reg[k].n) lo=reg[k].p; size_t off=(a-lo)%256; CHK(n<=256-off);} return 0; }''')
make('C05-limit','C05','shared limits and a size class smaller than the slab size, many allocate/free rounds','taking a cached slab of a small class gives back only one block of the limit, so the total drifts up until nothing is cached',
 [('src/pool/pool_disjoint.c','            uint64_t size_to_sub = bucket_slab_alloc_size(bucket);\n            uint64_t old_size','            uint64_t size_to_sub = bucket->size;\n            uint64_t old_size')],
 PRV+r'''int main(void){ umf_disjoint_pool_shared_limits_handle_t l=umfDisjointPoolSharedLimitsCreate(4*65536); umf_memory_pool_handle_t p=mkpool(65536,1<<20,4,8,l); for(int i=0;i<50;i++){ void*a=umfPoolMalloc(p,256); CHK(a); umfPoolFree(p,a);} CHK(allocs==1); umfPoolDestroy(p); return 0; }''')
make('C14-merge','C14','merge with the high pointer exactly totalSize above the low pointer','an invalid merge request is passed on to the backend instead of being rejected',
 [('src/memory_provider.c','(uintptr_t)highPtr - (uintptr_t)lowPtr < totalSize','(uintptr_t)highPtr - (uintptr_t)lowPtr <= totalSize')],
 PRV+r'''static int merged; static umf_result_t mg(void*p,void*a,void*b,size_t n){(void)p;(void)a;(void)b;(void)n;merged++;return 0;} static umf_result_t sp(void*p,void*a,size_t n,size_t f){(void)p;(void)a;(void)n;(void)f;return 0;}
int main(void){ OPS.ext.allocation_merge=mg; OPS.ext.allocation_split=sp; CHK(!umfMemoryProviderCreate(&OPS,NULL,&prov)); char b[64]; CHK(umfMemoryProviderAllocationMerge(prov,b,b+32,32)==UMF_RESULT_ERROR_INVALID_ARGUMENT); CHK(!merged); CHK(!umfMemoryProviderAllocationMerge(prov,b,b+31,32)); return 0; }''')
make('C15-ipcops','C15','an operation table with exactly one IPC function (put_ipc_handle) filled in','a provider is created from an incomplete IPC table',
 [('src/memory_provider.c','            !ipc->put_ipc_handle && !ipc->open_ipc_handle &&\n            !ipc->close_ipc_handle);','            !ipc->open_ipc_handle && !ipc->close_ipc_handle);')],
 PRV+r'''static umf_result_t pt(void*p,void*d){(void)p;(void)d;return 0;}
int main(void){ OPS.ipc.put_ipc_handle=pt; CHK(umfMemoryProviderCreate(&OPS,NULL,&prov)==UMF_RESULT_ERROR_INVALID_ARGUMENT); return 0; }''')
