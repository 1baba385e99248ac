#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "libgrpp.h"

static long live;
void *__real_calloc(size_t, size_t); void *__real_malloc(size_t); void __real_free(void *);
void *__wrap_calloc(size_t n, size_t m) { live++; return __real_calloc(n, m); }
void *__wrap_malloc(size_t n) { live++; return __real_malloc(n); }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
int main() {
    double A[3] = {0.1, 0.2, 0.3}, B[3] = {-0.2, 0.4, 0.1}, C[3] = {0.3, -0.1, 0.2}, one = 1, a = 0.8, b = 1.1, z = 0.5;
    int n = 2;
    libgrpp_init();
    libgrpp_shell_t *p = libgrpp_new_shell(A, 1, 1, &one, &a), *q = libgrpp_new_shell(B, 1, 1, &one, &b);
    libgrpp_grpp_t *g = libgrpp_new_grpp();
    libgrpp_grpp_add_averaged_potential(g, libgrpp_new_potential(1, 0, 1, &n, &one, &z));
    double m[4][9];
    libgrpp_full_grpp_integrals(p, q, g, C, m[0], m[1], m[2], m[3]);
    long before = live;
    libgrpp_full_grpp_integrals(p, q, g, C, m[0], m[1], m[2], m[3]);
    printf("%ld\n", live - before);
    return live != before;
}
