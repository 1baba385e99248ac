#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "libgrpp.h"
static long live;
void *__real_calloc(size_t, size_t); void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_calloc(size_t n, size_t m) { live++; return __real_calloc(n, m); }
void *__wrap_malloc(size_t n) { live++; return __real_malloc(n); }
void *__wrap_realloc(void *p, size_t n) { if (!p) live++; return __real_realloc(p, n); }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }

#include <stdint.h>
void libgrpp_spin_orbit_integrals_gradient_(double *, int32_t *, int32_t *, double *, double *, double *, int32_t *, int32_t *, double *, double *,
    double *, int32_t *, int32_t *, int32_t *, double *, double *, double *, double *, double *, double *, double *, double *, double *, double *, double *, double *);
int main() {
    double A[3] = {0.1, 0.2, 0.3}, B[3] = {-0.2, 0.4, 0.1}, C[3] = {0.3, -0.1, 0.2}, one = 1, a = 0.8, b = 1.1, z = 0.5, m[9][9];
    int32_t L = 1, n1 = 1, p = 2;
    libgrpp_init();
    long s = live;
    libgrpp_spin_orbit_integrals_gradient_(A, &L, &n1, &one, &a, B, &L, &n1, &one, &b, C, &L, &n1, &p, &one, &z, A, m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]);
    printf("%ld\n", live - s);
    return live != s;
}
