/* C01: the bitmap functions of a slab, for slabs of any number of blocks.
 * The slab record has a symbolic number of words; the loop is closed by an
 * invariant (loops_slab.json), no unwinding. */
#define VP_BA
#include "vp.h"
#include "utils_common.c"
#include "pool_disjoint.c"

/* environment of the included file that these functions do not reach */
#define UNUSED CHECK("unreachable", 0)
umf_result_t umfMemoryProviderAlloc(umf_memory_provider_handle_t h, size_t s, size_t a, void **p) { UNUSED; return 0; }
umf_result_t umfMemoryProviderFree(umf_memory_provider_handle_t h, void *p, size_t s) { UNUSED; return 0; }
umf_result_t umfMemoryProviderGetMinPageSize(umf_memory_provider_handle_t h, void *p, size_t *s) { UNUSED; return 0; }
umf_result_t umfMemoryTrackerGetAllocInfo(const void *p, umf_alloc_info_t *i) { UNUSED; return 0; }
critnib *critnib_new(void) { UNUSED; return NULL; }
void critnib_delete(critnib *c) { UNUSED; }
int critnib_insert(critnib *c, uintptr_t k, void *v, int u) { UNUSED; return 0; }
void *critnib_remove(critnib *c, uintptr_t k) { UNUSED; return NULL; }
void *critnib_find_le(critnib *c, uintptr_t k) { UNUSED; return NULL; }
bool umf_ba_global_is_destroyed(void) { return false; }
utils_mutex_t *utils_mutex_init(utils_mutex_t *m) { UNUSED; return m; }
void utils_mutex_destroy_not_free(utils_mutex_t *m) { UNUSED; }
int utils_mutex_lock(utils_mutex_t *m) { UNUSED; return 0; }
int utils_mutex_unlock(utils_mutex_t *m) { UNUSED; return 0; }

#define MAXW ((uint64_t)1 << 40)
/* ghost witnesses: an arbitrary word and its value before the call */
uint64_t g_w, g_old, g_words;

#define SLAB_FRESH(s) (g_words >= 1 && g_words <= MAXW && __CPROVER_is_fresh(s, sizeof(slab_t) + g_words * 8) && (s)->num_words == g_words && g_w < g_words && (s)->chunks[g_w] == g_old)
#define BIT(s, i) (((s)->chunks[(i) / 64] >> ((i) % 64)) & 1)

#define POSTS_slab_find_first_available_chunk_idx(P) \
    P("a found block is one of the slab's", IMP(RET != SIZE_MAX, RET / 64 < slab->num_words)) \
    P("a found block is free", IMP(RET != SIZE_MAX, BIT(slab, RET))) \
    P("no block is reported only if every block is used", IMP(RET == SIZE_MAX, g_old == 0)) \
    P("the first free block is found", IMP(RET != SIZE_MAX && g_w < RET / 64, g_old == 0))
static size_t slab_find_first_available_chunk_idx(const slab_t *slab)
    REQ(SLAB_FRESH(slab)) ASG() POSTS_slab_find_first_available_chunk_idx(ENSP);
//@ name=C01.leaf.find props=C01 h=h_find mode=dfcc enforce=slab_find_first_available_chunk_idx loops=contract loopfile=loops_slab.json fallback=C01.leaf.find.bounded
void h_find(void) {
#ifdef VP_DFCC
    slab_t *s;
#else
    g_words = NW;
    g_w = vp_range("witness word", 0, NW - 1);
    slab_t *s = vp_malloc(sizeof(slab_t) + NW * 8);
    s->num_words = NW;
    for (int i = 0; i < NW; i++) s->chunks[i] = vp_u64("word");
    g_old = s->chunks[g_w];
    slab_t *slab = s;
#endif
    size_t vp_ret = slab_find_first_available_chunk_idx(s);
    VP_POSTS(POSTS_slab_find_first_available_chunk_idx);
    REACH("found", vp_ret != SIZE_MAX); REACH("full", vp_ret == SIZE_MAX);
}
//@ name=C01.leaf.find.bounded props=C01 h=h_find mode=plain fn=slab_find_first_available_chunk_idx defs="-DNW=5" unwind=7 tier=fallback bounded="slabs of 320 blocks"

/* setting a bit changes that bit only (all other words are in the frame) */
#define POSTS_slab_set_chunk_bit(P) \
    P("exactly the given block changes", slab->chunks[g_w] == (index / 64 != g_w ? g_old : value ? g_old | ((uint64_t)1 << (index % 64)) : g_old & ~((uint64_t)1 << (index % 64)))) \
    P("the in-use count is not touched", slab->num_chunks_allocated == __CPROVER_old(slab->num_chunks_allocated))
static inline void slab_set_chunk_bit(slab_t *slab, size_t index, bool value)
    REQ(SLAB_FRESH(slab) && index < slab->num_chunks_total && slab->num_chunks_total <= 64 * g_words)
    ASG(slab->chunks[index / 64]) POSTS_slab_set_chunk_bit(ENSP);
//@ name=C01.leaf.set cost=80 props=C01 h=h_set mode=dfcc enforce=slab_set_chunk_bit
#ifdef VP_DFCC
void h_set(void) { slab_t *s; size_t i = vp_u64("index"); slab_set_chunk_bit(s, i, vp_bool("value")); }
#endif
#define POSTS_slab_read_chunk_bit(P) \
    P("the block's own bit is read", IMP(index / 64 == g_w, (RET != 0) == (((g_old >> (index % 64)) & 1) != 0)))
static inline int slab_read_chunk_bit(const slab_t *slab, size_t index)
    REQ(SLAB_FRESH(slab) && index < slab->num_chunks_total && slab->num_chunks_total <= 64 * g_words)
    ASG() POSTS_slab_read_chunk_bit(ENSP);
//@ name=C01.leaf.read props=C01,C04 h=h_read mode=dfcc enforce=slab_read_chunk_bit
#ifdef VP_DFCC
void h_read(void) { slab_t *s; size_t i = vp_u64("index"); slab_read_chunk_bit(s, i); }
#endif
