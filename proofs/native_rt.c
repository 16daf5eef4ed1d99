/* native replay runtime: feeds the verifier's counterexample to the harness */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
static uint64_t *in; static size_t n, pos;
void VP_HARNESS(void);
uint64_t vp_next_input(const char *name) {
    uint64_t v = pos < n ? in[pos] : 0;
    printf("input %zu %s = %llu (0x%llx)%s\n", pos, name, (unsigned long long)v,
           (unsigned long long)v, pos < n ? "" : " [default]");
    pos++;
    return v;
}
void vp_check_fail(const char *name) { printf("VP-FAIL %s\n", name); fflush(stdout); _Exit(42); }
void vp_assume_fail(const char *name) { printf("VP-ASSUME %s\n", name); fflush(stdout); _Exit(43); }
void vp_abort(void) { printf("VP-FAIL the library never aborts (internal assertion)\n"); fflush(stdout); _Exit(42); }
void *vp_native_malloc(size_t s) {
    void *p = s > ((size_t)1 << 30) ? NULL : malloc(s ? s : 1);
    if (!p) { printf("VP-ASSUME native memory\n"); fflush(stdout); _Exit(43); }
    return p;
}
int main(int argc, char **argv) {
    if (argc > 1) {
        FILE *f = fopen(argv[1], "r");
        unsigned long long v;
        in = malloc(sizeof(*in) * 100000);
        while (f && n < 100000 && fscanf(f, "%llu", &v) == 1) in[n++] = v;
        if (f) fclose(f);
    }
    setvbuf(stdout, NULL, _IOLBF, 0);
    VP_HARNESS();
    printf("VP-PASS\n");
    return 0;
}
