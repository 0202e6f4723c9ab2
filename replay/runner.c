/* Native execution of one harness on concrete inputs.
   runner LIBHARNESS HARNESS INPUTS TIER      (INPUTS: one decimal value per line, in call order)
   exit 0: harness returned; 3: a check failed; 4: an assumption does not hold; 5: inputs exhausted;
   a panic of the code under test ends the process with SIGABRT. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static uint64_t *in; static size_t n_in, pos; static uint64_t tier;
static uint64_t next(void) {
    if (pos >= n_in) { printf("EXHAUSTED\n"); fflush(stdout); _Exit(5); }
    return in[pos++];
}
uint8_t sym_u8(void) { return (uint8_t)next(); }
uint16_t sym_u16(void) { return (uint16_t)next(); }
uint32_t sym_u32(void) { return (uint32_t)next(); }
uint64_t sym_u64(void) { return next(); }
bool sym_bool(void) { return next() & 1; }
void sym_bytes(uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = (uint8_t)next(); }
uint64_t sym_split(uint64_t v) { return v; }
uint64_t sym_case(uint64_t n) { (void)n; return next(); }
uint64_t sym_tier(void) { return tier; }
void sym_assume(bool c) { if (!c) { printf("ASSUME\n"); fflush(stdout); _Exit(4); } }
void sym_check(bool c, const char *p, size_t n) {
    if (!c) { printf("CHECKFAIL %.*s\n", (int)n, p); fflush(stdout); _Exit(3); }
}
void sym_cover(bool c, const char *p, size_t n) { if (c) printf("COVER %.*s\n", (int)n, p); }
void sym_emit(uint64_t v) { printf("EMIT %llu\n", (unsigned long long)v); }

int main(int argc, char **argv) {
    if (argc != 5) return 64;
    FILE *f = fopen(argv[3], "r");
    if (!f) return 65;
    size_t cap = 1024; in = malloc(cap * sizeof *in);
    unsigned long long v;
    while (fscanf(f, "%llu", &v) == 1) { if (n_in == cap) in = realloc(in, (cap *= 2) * sizeof *in); in[n_in++] = v; }
    fclose(f);
    tier = strcmp(argv[4], "thorough") == 0;
    void *h = dlopen(argv[1], RTLD_NOW | RTLD_GLOBAL | RTLD_DEEPBIND);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); return 66; }
    void (*fn)(void) = (void (*)(void))dlsym(h, argv[2]);
    if (!fn) { fprintf(stderr, "no harness %s\n", argv[2]); return 67; }
    fn();
    printf("DONE %zu %zu\n", pos, n_in);
    return 0;
}
