/* Execution traces for C22: every edge taken and every address loaded or stored by instrumented code (SanitizerCoverage
   callbacks), hashed while tracing is on in the calling thread. Linked into the traced builds only. */
#include <stddef.h>
#include <stdint.h>

#define CAP (1 << 19)
static __thread struct {
    int on;
    uint64_t hash, count;
    size_t used;
} s;
static __thread char arena[CAP] __attribute__((aligned(64)));

static inline void event(uint64_t x) {
    s.hash = (s.hash ^ x) * 0x9E3779B97F4A7C15ull;
    s.hash ^= s.hash >> 29;
    s.count++;
}
void ct_start(void) {
    s.hash = 1;
    s.count = 0;
    s.used = 0;
    s.on = 1;
}
void ct_stop(uint64_t *hash, uint64_t *count) {
    s.on = 0;
    *hash = s.hash;
    *count = s.count;
}
/* while tracing, memory comes from an arena that starts afresh with every trace: equal executions get equal addresses */
void *ct_alloc(size_t size, size_t align) {
    if (!s.on)
        return 0;
    size_t p = (s.used + align - 1) & ~(align - 1);
    if (p > CAP || size > CAP - p)
        return 0;
    s.used = p + size;
    return arena + p;
}
int ct_owns(void *p) { return (char *)p >= arena && (char *)p < arena + CAP; }

void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
    for (; a < b; a++)
        *a = 1;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    (void)g;
    if (s.on)
        event((uint64_t)__builtin_return_address(0) << 1);
}
#define ACCESS(n)                                                                                                              \
    void __sanitizer_cov_load##n(void *p) {                                                                                    \
        if (s.on)                                                                                                              \
            event(((uint64_t)p << 1) | 1);                                                                                     \
    }                                                                                                                          \
    void __sanitizer_cov_store##n(void *p) {                                                                                   \
        if (s.on)                                                                                                              \
            event(((uint64_t)p << 1) | 1);                                                                                     \
    }
ACCESS(1)
ACCESS(2)
ACCESS(4)
ACCESS(8)
ACCESS(16)
/* the C library's comparison stops at the first difference; so does this one, and says where */
int memcmp(const void *a, const void *b, size_t n) {
    const volatile unsigned char *x = a, *y = b;
    size_t i;
    for (i = 0; i < n; i++)
        if (x[i] != y[i])
            break;
    if (s.on)
        event(i << 2 | 2);
    return i == n ? 0 : (int)x[i] - (int)y[i];
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
