/* vp.h - shared vocabulary of the contracts.
 *
 * One proof file is compiled in three ways from the same text:
 *   VP_DFCC   : contracts are real __CPROVER contracts, enforced/replaced by
 *               goto-instrument --dfcc on the real function; harness checks off
 *   VP_PLAIN  : no contracts; the harness asserts the same clauses
 *   VP_NATIVE : plain C (gcc + ASan/UBSan); inputs come from the verifier's
 *               counterexample, the harness evaluates the same clauses
 */
#ifndef VP_H
#define VP_H 1
#include <errno.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#define IMP(a, b) (!(a) || (b))
#define IFF(a, b) (!(a) == !(b))

#if defined(VP_NATIVE)
uint64_t vp_next_input(const char *n);
void vp_check_fail(const char *name);
void vp_assume_fail(const char *name);
void vp_abort(void);
void *vp_native_malloc(size_t);
#define vp_u64(n) vp_next_input(n)
#define CHECK(name, ...) do { if (!(__VA_ARGS__)) vp_check_fail(name); } while (0)
#define ASSUME(...) do { if (!(__VA_ARGS__)) vp_assume_fail(#__VA_ARGS__); } while (0)
#define REACH(name, ...) do { } while (0)
#define vp_malloc(s) vp_native_malloc(s)
#else
uint64_t nondet_u64(void);
static inline uint64_t vp_u64(const char *n) {
    (void)n;
    uint64_t x = nondet_u64();
    __CPROVER_input("vp", x);
    return x;
}
#define CHECK(name, ...) __CPROVER_assert((__VA_ARGS__), name)
#define ASSUME(...) __CPROVER_assume(__VA_ARGS__)
/* vacuity guard: this assertion is expected to FAIL (the state is reachable) */
#define REACH(name, ...) __CPROVER_assert(!(__VA_ARGS__), "REACH " name)
static inline void *vp_malloc(size_t s) {
    void *p = malloc(s);
    __CPROVER_assume(p != NULL);
    return p;
}
static inline void vp_abort(void) {
    __CPROVER_assert(0, "the library never aborts (internal assertion)");
    __CPROVER_assume(0);
}
#endif
#define vp_bool(n) ((vp_u64(n) & 1) != 0)
#define vp_u32(n) ((uint32_t)vp_u64(n))
#define vp_int(n) ((int)(int32_t)vp_u64(n))
/* a value in [lo,hi] */
static inline uint64_t vp_range_(uint64_t x, uint64_t lo, uint64_t hi) {
    ASSUME(x >= lo && x <= hi);
    return x;
}
#define vp_range(n, lo, hi) vp_range_(vp_u64(n), lo, hi)

/* case split: bit k of the case number (constant per run, all cases are run) */
#ifndef VP_CASE
#define VP_CASE 0
#endif
#define vp_case(k) (((VP_CASE) >> (k)) & 1)

#ifdef VP_DFCC
#define REQ(...) __CPROVER_requires(__VA_ARGS__)
#define ASG(...) __CPROVER_assigns(__VA_ARGS__)
#define FRE(...) __CPROVER_frees(__VA_ARGS__)
#define ENSP(name, ...) __CPROVER_ensures(__VA_ARGS__)
#define RET __CPROVER_return_value
/* harness-side evaluation is off: the verifier enforces the contract */
#define VP_POSTS(X) do { } while (0)
#else
#define REQ(...)
#define ASG(...)
#define FRE(...)
#define ENSP(name, ...)
#define RET vp_ret
#define VP_CHK_(name, ...) CHECK(name, __VA_ARGS__);
#define VP_POSTS(X) do { X(VP_CHK_) } while (0)
#endif

/* environment: the logging functions have no observable effect here */
#ifndef VP_NO_LOG_STUB
#include "utils_log.h"
void utils_log(utils_log_level_t level, const char *func, const char *format, ...) {
    (void)level, (void)func, (void)format;
}
void utils_plog(utils_log_level_t level, const char *func, const char *format, ...) {
    (void)level, (void)func, (void)format;
}
#endif

#define abort vp_abort

/* ---- fallible steps ------------------------------------------------------ *
 * by default any step may fail (nondeterministic); with vp_fault_mode 1 exactly
 * step number vp_fail_at fails, with 2 every step from vp_fail_at on fails (the
 * numbers are constants of a case, so the verifier follows one path each)      */
static int vp_fault_mode, vp_fail_at, vp_steps, vp_faults;
static inline bool vp_fail_(bool any) {
    bool f;
    vp_steps++;
    if (vp_fault_mode == 1) f = vp_steps == vp_fail_at;
    else if (vp_fault_mode == 2) f = vp_steps >= vp_fail_at;
    else f = any;
    if (f) vp_faults++;
    return f;
}
#define vp_fail(what) (vp_fault_mode ? vp_fail_(false) : vp_fail_(vp_bool(what)))
/* case k: 0 no failure, 1..n step k fails, n+1..2n all steps from k-n on fail */
static inline void vp_fault_case(int k, int n) {
    vp_steps = vp_faults = 0;
    vp_fault_mode = k <= n ? 1 : 2;
    vp_fail_at = k <= n ? k : k - n;
}

/* ---- ghost internal allocator (contract of base_alloc_global) ----------- */
#ifdef VP_BA
int vp_ba_live;      /* number of live internal blocks */
int vp_ba_fails;     /* number of failed requests */
int vp_ba_allocs;    /* number of requests that succeeded */
bool vp_ba_nofail;   /* set: requests never fail */
void *umf_ba_global_alloc(size_t size) {
    if (size == 0 || (!vp_ba_nofail && vp_fail("internal allocation fails"))) {
        vp_ba_fails++;
        return NULL;
    }
    vp_ba_live++;
    vp_ba_allocs++;
#ifdef VP_BA_HOOK
    return VP_BA_HOOK(size);
#else
    return vp_malloc(size);
#endif
}
void *umf_ba_global_aligned_alloc(size_t size, size_t alignment) {
    (void)alignment;
    return umf_ba_global_alloc(size);
}
void umf_ba_global_free(void *ptr) {
    if (ptr) {
        vp_ba_live--;
        free(ptr);
    }
}
static inline void vp_ba_reset(void) {
    vp_ba_live = vp_ba_fails = vp_ba_allocs = 0;
    vp_ba_nofail = false;
}
#endif

/* ---- ghost locks -------------------------------------------------------- */
#ifdef VP_LOCKS
#ifndef VP_ON_LOCK
#define VP_ON_LOCK(m) do { } while (0)
#define VP_ON_UNLOCK(m) do { } while (0)
#endif
#include "utils_concurrency.h"
int vp_locks_held;    /* locks currently held */
int vp_lock_ops;      /* successful lock operations */
int vp_mutexes;       /* initialised, not yet destroyed */
void *vp_lock_a, *vp_lock_b, *vp_lock_c; /* the locks currently held */
bool vp_mutex_init_may_fail;
bool vp_lock_may_fail;
static inline bool vp_holds(void *m) {
    return m && (vp_lock_a == m || vp_lock_b == m || vp_lock_c == m);
}
utils_mutex_t *utils_mutex_init(utils_mutex_t *m) {
    if (vp_mutex_init_may_fail && vp_fail("mutex init fails")) {
        return NULL;
    }
    vp_mutexes++;
    return m;
}
void utils_mutex_destroy_not_free(utils_mutex_t *m) {
    CHECK("LOCK a destroyed lock is not held", !vp_holds(m));
    vp_mutexes--;
}
int utils_mutex_lock(utils_mutex_t *m) {
    CHECK("LOCK no lock is taken twice", !vp_holds(m));
    VP_ON_LOCK(m);
    if (vp_lock_may_fail && vp_fail("lock fails")) {
        return 1;
    }
    if (!vp_lock_a) vp_lock_a = m;
    else if (!vp_lock_b) vp_lock_b = m;
    else { CHECK("LOCK at most three locks nest", !vp_lock_c); vp_lock_c = m; }
    vp_locks_held++;
    vp_lock_ops++;
    return 0;
}
int utils_mutex_unlock(utils_mutex_t *m) {
    CHECK("LOCK only a held lock is released", vp_holds(m));
    VP_ON_UNLOCK(m);
    if (vp_lock_a == m) vp_lock_a = NULL;
    else if (vp_lock_b == m) vp_lock_b = NULL;
    else if (vp_lock_c == m) vp_lock_c = NULL;
    vp_locks_held--;
    return 0;
}
static inline void vp_locks_reset(void) {
    vp_locks_held = vp_lock_ops = vp_mutexes = 0;
    vp_lock_a = vp_lock_b = vp_lock_c = NULL;
    vp_mutex_init_may_fail = vp_lock_may_fail = false;
}
#endif

#endif
