/* Coverage and comparison feedback for the guided legs: SanitizerCoverage callbacks of the instrumented library. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>

#define EDGES (1 << 16)
#define VALUES (1 << 16)
#define PAIRS 256
static int on;
static uint8_t edge[EDGES];
static uint32_t touched[EDGES], n_touched, n_guards;
static uint8_t value[VALUES];
static uint32_t vtouched[VALUES], n_vtouched;
static struct pair { uint64_t a, b; uint32_t size; } pairs[PAIRS];
static uint32_t n_pairs;

void cov_start(void) {
    for (uint32_t i = 0; i < n_touched; i++)
        edge[touched[i]] = 0;
    for (uint32_t i = 0; i < n_vtouched; i++)
        value[vtouched[i]] = 0;
    n_touched = n_vtouched = n_pairs = 0;
    on = 1;
}
void cov_stop(void) { on = 0; }
uint32_t cov_guards(void) { return n_guards; }
static uint32_t bucket(uint8_t c) { return c < 4 ? c - 1 : c < 8 ? 3 : c < 16 ? 4 : c < 32 ? 5 : c < 128 ? 6 : 7; }
/* features of the last run: numbers below 2^20; returns how many */
uint32_t cov_features(uint32_t *out, uint32_t cap) {
    uint32_t n = 0;
    for (uint32_t i = 0; i < n_touched && n < cap; i++)
        out[n++] = touched[i] * 8 + bucket(edge[touched[i]]);
    for (uint32_t i = 0; i < n_vtouched && n < cap; i++)
        out[n++] = EDGES * 8 + vtouched[i];
    return n;
}
uint32_t cov_pairs(struct pair *out, uint32_t cap) {
    uint32_t n = n_pairs < PAIRS ? n_pairs : PAIRS;
    if (n > cap)
        n = cap;
    memcpy(out, pairs, n * sizeof *out);
    return n;
}
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
    if (a == b || *a)
        return;
    for (; a < b; a++)
        *a = 1 + n_guards++ % (EDGES - 1);
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    if (!on)
        return;
    uint32_t i = *g;
    if (!edge[i])
        touched[n_touched++] = i;
    if (edge[i] < 255)
        edge[i]++;
}
static inline void cmp(uintptr_t pc, uint64_t a, uint64_t b, uint32_t size) {
    if (!on)
        return;
    /* how close the two sides are, per comparison: matching bits and matching leading bits */
    uint64_t x = a ^ b;
    uint32_t h = __builtin_popcountll(x), z = x ? __builtin_clzll(x) : 64;
    uint32_t base = (uint32_t)(pc * 0x9E3779B1u >> 4) & ~127u;
    uint32_t f1 = (base ^ h) & (VALUES - 1), f2 = ((base * 31 + 977) ^ z) & (VALUES - 1);
    if (!value[f1])
        value[f1] = 1, vtouched[n_vtouched++] = f1;
    if (!value[f2])
        value[f2] = 1, vtouched[n_vtouched++] = f2;
    if (x) {
        pairs[n_pairs % PAIRS] = (struct pair){a, b, size};
        n_pairs++;
    }
}
#define PC ((uintptr_t)__builtin_return_address(0))
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { cmp(PC, a, b, 1); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { cmp(PC, a, b, 2); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { cmp(PC, a, b, 4); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { cmp(PC, a, b, 8); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { cmp(PC, a, b, 1); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { cmp(PC, a, b, 2); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { cmp(PC, a, b, 4); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { cmp(PC, a, b, 8); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *cases) {
    for (uint64_t i = 0; i < cases[0] && i < 64; i++)
        cmp(PC + 128 * i, cases[2 + i], v, (uint32_t)(cases[1] / 8));
}
