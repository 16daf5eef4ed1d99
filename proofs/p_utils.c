/* Contracts of src/utils (C24): flag translation, alignment, strings, files. */
#define VP_LOG_PLOG
#include "vp.h"
#include <ctype.h>
#include <fcntl.h>
#include <limits.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <umf/memory_provider.h>
#include "utils_concurrency.h"

#define U(p) ((uint64_t)(uintptr_t)(p))
/* CBMC zero-extends the 32-bit -1 of (void *)-1; gcc sign-extends it. Spell out what gcc does. */
#undef MAP_FAILED
#define MAP_FAILED ((void *)(intptr_t)-1)
/* ---- the operating system, recorded --------------------------------------- */
static int mm_n, mm_prot[3], mm_flags[3], mm_fd[3], mm_errno[3];
static uint64_t mm_addr[3], mm_len[3], mm_off[3]; static void *mm_ret[3];
static void *v_mmap(void *a, size_t len, int prot, int flags, int fd, off_t off) {
    CHECK("at most two mapping attempts", mm_n < 2);
    int i = mm_n++;
    mm_addr[i] = U(a); mm_len[i] = len; mm_prot[i] = prot; mm_flags[i] = flags; mm_fd[i] = fd; mm_off[i] = (uint64_t)off;
    if (vp_fail("mmap fails")) { errno = mm_errno[i] = vp_int("errno"); mm_ret[i] = NULL; return MAP_FAILED; }
    return mm_ret[i] = (void *)(uintptr_t)vp_range("mapped address", 4096, (uint64_t)1 << 47);
}
static int mu_n, mu_ret; static uint64_t mu_addr, mu_len;
static int v_munmap(void *a, size_t len) { mu_n++; mu_addr = U(a); mu_len = len; return mu_ret = vp_int("munmap result"); }
static int ma_n, ma_ret, ma_advice; static uint64_t ma_addr, ma_len;
static int v_madvise(void *a, size_t len, int adv) { ma_n++; ma_addr = U(a); ma_len = len; ma_advice = adv; return ma_ret = vp_int("madvise result"); }
/* files: every descriptor handed out must be returned to the caller or closed */
static int fd_open, fd_last, fd_list[3], fd_closed;
static int shm_created, shm_unlinked;
static int mkfd(void) { if (vp_fail("open fails")) return -1; return fd_last = fd_list[fd_open++] = (int)vp_range("descriptor", 0, 1000); }
static int op_flags; static unsigned op_mode;
static int v_open(const char *p, int flags, ...) { (void)p; op_flags = flags; return mkfd(); }
static int v_shm_open(const char *p, int flags, unsigned mode) { (void)p; op_flags = flags; op_mode = mode; int fd = mkfd(); if (fd != -1 && (flags & O_CREAT)) shm_created++; return fd; }
static int v_shm_unlink(const char *p) { (void)p; shm_unlinked++; if (shm_created) shm_created--; return vp_int("unlink result"); }
static int v_close(int fd) {
    CHECK("only an open descriptor is closed", fd_open > 0 && (fd == fd_list[0] || (fd_open > 1 && fd == fd_list[1])));
    if (fd_open > 1 && fd == fd_list[0]) fd_list[0] = fd_list[1];
    fd_open--; fd_closed = fd; return 0;
}
static uint64_t tr_size; static int tr_fd, tr_n, tr_ret;
static int v_ftruncate(int fd, off_t n) { tr_fd = fd; tr_size = (uint64_t)n; tr_n++; return tr_ret = vp_fail("ftruncate fails") ? -1 : 0; }
static uint64_t st_size_; static unsigned st_mode_; static bool st_failed;
static int v_fstat(int fd, struct stat *s) { (void)fd; if ((st_failed = vp_fail("fstat fails"))) return -1; s->st_size = (off_t)st_size_; return 0; }
static int v_stat(const char *p, struct stat *s) { (void)p; if ((st_failed = vp_fail("stat fails"))) return -1; s->st_mode = st_mode_; return 0; }
static long sy_n; static long sy_ret[3];
static long v_syscall(long nr, long a, long b, long c) {
    (void)b, (void)c;
    if (sy_n >= 3) { CHECK("bounded number of system calls", 0); return -1; }
    if (vp_fail("system call fails")) { errno = vp_int("errno"); return sy_ret[sy_n++] = -1; }
    CHECK("bounded number of descriptors", fd_open < 3);
    fd_last = fd_list[fd_open] = (int)vp_range("descriptor", 1, 1000);
    for (int i = 0; i < fd_open; i++) ASSUME(fd_list[i] != fd_last);
    fd_open++;
    return sy_ret[sy_n++] = fd_last;
}
static bool env_has;
static char *v_getenv(const char *n) { (void)n; return env_has ? (char *)"memfd_create" : NULL; }
void utils_init_once(UTIL_ONCE_FLAG *f, void (*cb)(void)) { (void)f; cb(); }

/* string functions, as the C standard defines them */
static size_t v_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
static char *v_strstr(const char *h, const char *n) {
    for (;; h++) {
        size_t i = 0;
        while (n[i] && h[i] == n[i]) i++;
        if (!n[i]) return (char *)h;
        if (!*h) return NULL;
    }
}
static char *v_strncpy(char *d, const char *s, size_t n) {
    size_t i = 0;
    for (; i < n && s[i]; i++) d[i] = s[i];
    for (; i < n; i++) d[i] = 0;
    return d;
}
static long v_strtol(const char *s, char **end, int base) {
    long v = 0;
    (void)base;
    bool ov = false;
    while (*s >= '0' && *s <= '9') { if (v > (LONG_MAX - (*s - '0')) / 10) ov = true; else v = v * 10 + (*s - '0'); s++; }
    if (end) *end = (char *)s;
    if (ov) { errno = ERANGE; return LONG_MAX; }
    return v;
}
static long v_atol(const char *s) { return v_strtol(s, NULL, 10); }
#undef isdigit
#define isdigit(c) ((c) >= '0' && (c) <= '9')
#define mmap v_mmap
#define munmap v_munmap
#define madvise v_madvise
#define open v_open
#define close v_close
#define shm_open v_shm_open
#define shm_unlink v_shm_unlink
#define ftruncate v_ftruncate
#define fstat(a, b) v_fstat(a, b)
#define stat(a, b) v_stat(a, b)
#define VSEL(_1, _2, _3, _4, N, ...) N
#define syscall(...) v_syscall(__VA_ARGS__, 0, 0, 0)
#undef v_syscall
#define v_syscall(a, b, c, d, ...) (v_syscall)(a, (long)(b), (long)(c), (long)(d))
#define getenv v_getenv
#define strlen v_strlen
#define strstr v_strstr
#define strncpy v_strncpy
#define strtol v_strtol
#define strtoul(a, b, c) ((unsigned long)v_strtol(a, b, c))
#define atol v_atol
#include "utils_common.c"
#include "utils_posix_common.c"
#include "utils_linux_common.c"

/* ---- flags ----------------------------------------------------------------- */
static unsigned spec_prot(unsigned f) {
    return (f & UMF_PROTECTION_NONE ? PROT_NONE : 0) | (f & UMF_PROTECTION_READ ? PROT_READ : 0) | (f & UMF_PROTECTION_WRITE ? PROT_WRITE : 0) | (f & UMF_PROTECTION_EXEC ? PROT_EXEC : 0);
}
//@ name=C24.protection props=C24,C19 h=h_prot fn=utils_translate_mem_protection_flags,utils_translate_flags,utils_translate_mem_protection_one_flag unwind=34
void h_prot(void) {
    unsigned in = vp_u32("flags"), o0 = vp_u32("initial output"), out = o0;
    umf_result_t r = utils_translate_mem_protection_flags(in, &out);
    bool valid = (in & ~15u) == 0;
    CHECK("exactly the combinations of the four protections are accepted", valid ? r == UMF_RESULT_SUCCESS : r == UMF_RESULT_ERROR_INVALID_ARGUMENT);
    CHECK("the system flags are exactly those of the given protections", IMP(valid, out == spec_prot(in)));
    CHECK("a rejected combination leaves the output alone", IMP(!valid, out == o0));
    REACH("valid", valid && in == 15); REACH("invalid", !valid); REACH("none", in == 0);
}
//@ name=C24.visibility props=C24,C19 h=h_vis fn=utils_translate_mem_visibility_flag
void h_vis(void) {
    unsigned in = vp_u32("flag"), out = 77;
    umf_result_t r = utils_translate_mem_visibility_flag((umf_memory_visibility_t)in, &out);
    CHECK("exactly private and shared are accepted", in == UMF_MEM_MAP_PRIVATE || in == UMF_MEM_MAP_SHARED ? r == UMF_RESULT_SUCCESS : r == UMF_RESULT_ERROR_INVALID_ARGUMENT);
    CHECK("translated exactly", IMP(in == UMF_MEM_MAP_PRIVATE, out == MAP_PRIVATE) && IMP(in == UMF_MEM_MAP_SHARED, out == MAP_SHARED));
    REACH("ok", r == 0); REACH("bad", r != 0);
}
static unsigned g_known; static int g_cb;
/* every flag is translated to a distinct image */
static umf_result_t cb_flag(unsigned f, unsigned *out) {
    CHECK("one flag at a time is translated", f != 0 && (f & (f - 1)) == 0);
    g_cb++;
    if (!(f & g_known)) return UMF_RESULT_ERROR_INVALID_ARGUMENT;
    *out = (f << 5) | (f >> 27);
    return UMF_RESULT_SUCCESS;
}
//@ name=C24.flags props=C24 h=h_flags fn=utils_translate_flags unwind=34
//@+ assume="utils_translate_flags is called with max <= 2^31 (all callers pass an enum bound)"
void h_flags(void) {
    unsigned in = vp_u32("flags"), max = 1u << vp_range("limit", 1, 31), out = 77, exp = 0;
    g_known = vp_u32("known flags");
    bool ok = (in & ~g_known) == 0 && in < max;
    exp = (in << 5) | (in >> 27);
    umf_result_t r = utils_translate_flags(in, max, cb_flag, &out);
    CHECK("accepted exactly if every flag given is below the limit and known", IFF(r == UMF_RESULT_SUCCESS, ok) && IMP(!ok, r == UMF_RESULT_ERROR_INVALID_ARGUMENT));
    CHECK("the result is the union of the translations", out == (ok ? exp : 77));
    REACH("ok", ok && in); REACH("bad", !ok);
}
//@ name=C24.purge props=C24 h=h_purge fn=utils_translate_purge_advise,utils_purge
void h_purge(void) {
    unsigned a = vp_u32("advise");
    int r = utils_translate_purge_advise((umf_purge_advise_t)a);
    int exp = a == UMF_PURGE_LAZY ? MADV_FREE : a == UMF_PURGE_FORCE ? MADV_DONTNEED : -1;
    CHECK("purge advice is translated exactly", r == exp);
    ma_n = 0;
    void *p = (void *)(uintptr_t)vp_u64("addr"); uint64_t n = vp_u64("len");
    int q = utils_purge(p, n, (int)a);
    CHECK("the purge reaches exactly the given range and reports the system's answer", ma_n == 1 && ma_addr == U(p) && ma_len == n && ma_advice == exp && q == ma_ret);
    REACH("lazy", r == MADV_FREE); REACH("bad", r == -1);
}
//@ name=C24.errno props=C24 h=h_errno fn=utils_errno_to_umf_result
void h_errno(void) {
    int e = vp_int("errno");
    umf_result_t r = utils_errno_to_umf_result(e);
    umf_result_t x = e == EBADF || e == EINVAL || e == ESRCH || e == EPERM ? UMF_RESULT_ERROR_INVALID_ARGUMENT : e == EMFILE || e == ENOMEM ? UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY
        : e == ENODEV || e == ENOSYS || e == ENOTSUP ? UMF_RESULT_ERROR_NOT_SUPPORTED : UMF_RESULT_ERROR_UNKNOWN;
    CHECK("error codes are translated as documented, never to success", r == x && r != UMF_RESULT_SUCCESS);
    REACH("r", r == UMF_RESULT_ERROR_NOT_SUPPORTED);
}
/* ---- alignment --------------------------------------------------------------- */
//@ name=C24.align props=C24,C23 h=h_align fn=utils_align_ptr_up_size_down,utils_align_ptr_down_size_up
void h_align(void) {
    uint64_t p = vp_u64("ptr"), n = vp_u64("size"), al = (uint64_t)1 << vp_range("alignment exponent", 0, 62);
    ASSUME(p < ((uint64_t)1 << 62) && n < ((uint64_t)1 << 61) && al < ((uint64_t)1 << 61));
    uint64_t pad = (al - (p & (al - 1))) & (al - 1);
    if (n >= pad) {
        void *q = (void *)(uintptr_t)p; size_t m = n;
        utils_align_ptr_up_size_down(&q, &m, al);
        CHECK("the shrunk range starts at the first aligned address of the range", U(q) == p + pad);
        CHECK("and ends where the range ends", U(q) + m == p + n);
        REACH("up", pad > 0);
    }
    void *q = (void *)(uintptr_t)p; size_t m = n;
    utils_align_ptr_down_size_up(&q, &m, al);
    CHECK("the grown range is aligned", (U(q) & (al - 1)) == 0 && (m & (al - 1)) == 0);
    CHECK("it contains the range", U(q) <= p && U(q) + m >= p + n);
    CHECK("it is the tightest such range", p - U(q) < al && U(q) + m - (p + n) < al);
    REACH("down", p - U(q) > 0 && U(q) + m > p + n);
}
//@ name=C24.minmax props=C24 h=h_minmax fn=utils_max,utils_min
void h_minmax(void) {
    uint64_t a = vp_u64("a"), b = vp_u64("b"), M = utils_max(a, b), m = utils_min(a, b);
    CHECK("maximum", M >= a && M >= b && (M == a || M == b)); CHECK("minimum", m <= a && m <= b && (m == a || m == b));
    REACH("r", a != b);
}
/* ---- strings ------------------------------------------------------------------ */
#define LP 10
//@ name=C24.copy_path props=C24 h=h_path fn=utils_copy_path unwind=14 bounded="paths of up to 10 bytes, buffers of 1 to 10 bytes"
void h_path(void) {
    char in[LP + 1], out[LP + 1];
    uint64_t cap = vp_range("buffer size", 1, LP), len = vp_range("path length", 0, LP);
    for (int i = 0; i <= LP; i++) { in[i] = i < (int)len ? (char)(vp_u32("char") & 127) : 0; out[i] = 'x'; if (i < (int)len) ASSUME(in[i] != 0); }
    int r = utils_copy_path(in, out, cap);
    CHECK("a path is accepted exactly if it fits with its terminator", IFF(r == 0, len < cap));
    for (int i = 0; i <= LP; i++) CHECK("an accepted path is copied completely and terminated", IMP(r == 0 && i <= (int)len, out[i] == in[i]));
    for (int i = 0; i <= LP; i++) CHECK("nothing is written behind the buffer", IMP(i >= (int)cap, out[i] == 'x'));
    REACH("fits exactly", r == 0 && len == cap - 1 && len > 3); REACH("too long", r != 0);
}
#ifndef LV
#define LV 6
#endif
//@ name=C24.parse_var props=C24 h=h_var fn=utils_parse_var unwind=12 bounded="strings of up to 6 characters, options of 1 to 3" timeout=400 cost=30
static bool opt_at(const char *v, const char *o, int len, int i, bool arg) {
    if (i > 0 && v[i - 1] != ';') return false;
    for (int k = 0; k < len; k++) if (v[i + k] != o[k]) return false;
    return arg ? v[i + len] == ',' : (v[i + len] == 0 || v[i + len] == ';');
}
void h_var(void) {
    char v[LV + 4], o[4];
    uint64_t n = vp_range("length", 0, LV), k = vp_range("option length", 1, 3);
    for (int i = 0; i < LV + 4; i++) { v[i] = i < (int)n ? (char)(vp_u32("char") & 127) : 0; if (i < (int)n) ASSUME(v[i] != 0); }
    for (int i = 0; i < 4; i++) { o[i] = i < (int)k ? (char)(vp_u32("option char") & 127) : 0; if (i < (int)k) ASSUME(o[i] != 0 && o[i] != ';' && o[i] != ','); }
    bool arg = vp_bool("with argument");
    const char *a = NULL;
    const char *r = utils_parse_var(v, o, arg ? &a : NULL);
    int first = -1;
    for (int i = LV; i >= 0; i--) if (i <= (int)n && opt_at(v, o, (int)k, i, arg)) first = i;
    CHECK("an option is found exactly if it stands in the string as a complete option", IFF(r != NULL, first >= 0));
    CHECK("its place is reported", IMP(r != NULL, r == v + first));
    CHECK("its argument starts behind the comma", a == (arg && r ? v + first + (int)k + 1 : NULL));
    REACH("found later", r && first > 2 && arg); REACH("not found", !r);
}
//@ name=C24.threshold props=C24 h=h_thr fn=utils_get_size_threshold unwind=30 bounded="numbers of up to 6 digits followed by up to 2 characters"
void h_thr(void) {
    static const char pre[] = "size.threshold=";
    char v[28];
    int d = (int)vp_range("digits", 0, 6);
    uint64_t val = 0;
    for (int i = 0; i < 28; i++) v[i] = i < 15 ? pre[i] : 0;
    for (int i = 0; i < 8; i++) {
        char c = (char)(vp_u32("char") & 127);
        if (i < d) { ASSUME(c >= '0' && c <= '9'); val = val * 10 + (uint64_t)(c - '0'); }
        else if (i == d) ASSUME(c == 0 || c == ';' || (d == 0 && !(c >= '0' && c <= '9')));
        v[15 + i] = c;
    }
    long r = utils_get_size_threshold(v);
    CHECK("a number is parsed exactly", IMP(d > 0, r == (long)val));
    CHECK("anything but a number is rejected", IMP(d == 0, r == -1));
    CHECK("no threshold means 0", utils_get_size_threshold(NULL) == 0);
    REACH("number", r > 99999); REACH("rejected", r == -1);
}
/* ---- mappings and files --------------------------------------------------------- */
#define RST() do { mm_n = mu_n = ma_n = 0; fd_open = 0; shm_created = shm_unlinked = tr_n = 0; sy_n = 0; vp_faults = vp_steps = 0; env_has = false; } while (0)
//@ name=C24.mmap props=C24,C19 h=h_mmap fn=utils_mmap,utils_munmap
void h_mmap(void) {
    RST();
    uint64_t hint = vp_u64("hint"), len = vp_u64("length"), off = vp_u64("offset");
    int prot = vp_int("prot"), flags = vp_int("flags"), fd = vp_int("fd");
    void *p = utils_mmap((void *)(uintptr_t)hint, len, prot, flags, fd, off);
    bool anon = fd <= 0 && fd >= -1;
    CHECK("one mapping is requested with the given address, length, protection and offset", mm_n == 1 && mm_addr[0] == hint && mm_len[0] == len && mm_prot[0] == prot && mm_off[0] == off);
    CHECK("without a file the mapping is anonymous, else it is of the given file", IMP(anon, mm_fd[0] == -1 && mm_flags[0] == (flags | MAP_ANONYMOUS)) && IMP(!anon, mm_fd[0] == fd && mm_flags[0] == flags));
    CHECK("failure is NULL, success the mapped address", p == mm_ret[0]);
    int r = utils_munmap(p, len);
    CHECK("unmapping is passed on", mu_n == 1 && mu_addr == U(p) && mu_len == len && r == mu_ret);
    REACH("mapped", p); REACH("failed", !p);
}
//@ name=C24.mmap_file props=C24,C22,C23 h=h_mmapf fn=utils_mmap_file
void h_mmapf(void) {
    RST();
    uint64_t hint = vp_u64("hint"), len = vp_u64("length"), off = vp_u64("offset");
    int prot = vp_int("prot"), flags = vp_int("flags"), fd = (int)vp_range("fd", 1, 1000);
    bool sync = vp_bool("initial sync"), want = vp_bool("caller wants to know");
    void *p = utils_mmap_file((void *)(uintptr_t)hint, len, prot, flags, fd, off, want ? &sync : NULL);
    bool priv = (flags & MAP_PRIVATE) != 0;
    for (int i = 0; i < 2; i++)
        CHECK("every attempt maps the given part of the given file with the given protection", IMP(i < mm_n, mm_addr[i] == hint && mm_len[i] == len && mm_prot[i] == prot && mm_off[i] == off && mm_fd[i] == fd));
    CHECK("a private mapping is never made shared", IMP(priv, mm_n == 1 && mm_flags[0] == flags));
    CHECK("a shared mapping is first tried synchronous, then plain shared if that is unsupported", IMP(!priv, mm_n >= 1 && mm_flags[0] == (flags | MAP_SHARED_VALIDATE | MAP_SYNC) && IMP(mm_n == 2, mm_flags[1] == (flags | MAP_SHARED) && mm_ret[0] == NULL)));
    CHECK("the fallback is made exactly when the synchronous mapping is not supported", IMP(!priv, IFF(mm_n == 2, mm_ret[0] == NULL && (mm_errno[0] == EINVAL || mm_errno[0] == ENOTSUP || mm_errno[0] == EOPNOTSUPP))));
    CHECK("the last attempt's address is returned, NULL on failure", p == mm_ret[mm_n - 1]);
    CHECK("synchronous mapping is reported exactly", IMP(want, sync == (!priv && mm_n == 1 && p != NULL)));
    REACH("sync", want && sync && p); REACH("fallback", mm_n == 2 && p); REACH("private", priv && p); REACH("failed", !p);
}
//@ name=C24.files props=C24,C28 h=h_files fn=utils_get_file_size,utils_set_file_size,utils_shm_create,utils_shm_open,utils_devdax_open,utils_file_open,utils_file_open_or_create unwind=12 cases=7
void h_files(void) {
    RST();
    st_size_ = vp_u64("file size"); st_mode_ = vp_u32("mode");
    uint64_t n = vp_u64("size");
    bool null = vp_bool("NULL name");
    const char *name = null ? NULL : vp_bool("devdax name") ? "/dev/dax0" : "/dev/da";
    int fd = -1;
    switch (VP_CASE) {
    case 0: {
        size_t out = 5;
        int r = utils_get_file_size(3, &out);
        CHECK("the file size is reported exactly", st_failed ? r != 0 && out == 5 : r == 0 && out == st_size_);
        REACH("ok", r == 0); return; }
    case 1: {
        int r = utils_set_file_size(3, n);
        CHECK("the file gets exactly the given size", tr_n == 1 && tr_fd == 3 && tr_size == n && r == tr_ret);
        REACH("ok", r == 0); return; }
    case 2:
        fd = utils_shm_create(name, n);
        CHECK("a created shared memory file is new and has the given size", IMP(fd != -1, shm_created == 1 && tr_n == 1 && tr_size == n && tr_fd == fd && tr_ret == 0 && (op_flags & (O_CREAT | O_EXCL | O_RDWR)) == (O_CREAT | O_EXCL | O_RDWR) && (op_mode & 077) == 0));
        CHECK("a failed creation leaves no file behind", IMP(fd == -1, shm_created == 0));
        REACH("truncate failed", tr_n == 1 && fd == -1); break;
    case 3: fd = utils_shm_open(name); CHECK("an existing file is opened", shm_created == 0); break;
    case 4:
        fd = utils_devdax_open(name);
        CHECK("only character devices below /dev/dax are accepted", IMP(fd != -1, name && name[7] == 'x' && S_ISCHR(st_mode_) && !st_failed));
        CHECK("such a device is opened unless the system fails", IMP(fd == -1 && name && name[7] == 'x' && S_ISCHR(st_mode_), vp_faults > 0)); break;
    case 5: fd = utils_file_open(name); CHECK("no file is created", !(op_flags & O_CREAT) || null); break;
    case 6: fd = utils_file_open_or_create(name); CHECK("a missing file is created", null || (op_flags & O_CREAT)); break;
    }
    CHECK("the opened file is returned", IMP(fd != -1, fd == fd_last && fd_open == 1));
    CHECK("on failure no descriptor stays open", IMP(fd == -1, fd_open == 0));
    CHECK("NULL is rejected without opening anything", IMP(null, fd == -1 && vp_steps == 0));
    REACH("opened", fd != -1); REACH("failed", fd == -1 && !null);
}
//@ name=C24.anon_fd props=C24,C28,C33 h=h_anon fn=utils_create_anonymous_fd,utils_duplicate_fd unwind=20
void h_anon(void) {
    RST();
    env_has = vp_bool("memfd_create requested");
    int fd = utils_create_anonymous_fd();
    CHECK("an anonymous descriptor is returned unless both ways fail", IFF(fd > 0, fd_open == 1) && IMP(fd <= 0, vp_faults == sy_n && sy_n == (env_has ? 1 : 2)));
    CHECK("never two", fd_open <= 1 && IMP(fd > 0, fd == fd_last));
    REACH("second way", fd > 0 && sy_n == 2);
    RST();
    int out = -7;
    umf_result_t r = utils_duplicate_fd(5, 6, &out);
    CHECK("a duplicated descriptor is returned and nothing else stays open", r == UMF_RESULT_SUCCESS ? fd_open == 1 && out == (int)sy_ret[1] : out == -7);
    REACH("dup", r == 0);
}
