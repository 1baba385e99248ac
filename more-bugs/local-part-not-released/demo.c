#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "libgrpp.h"
static long live;
void *__real_calloc(size_t, size_t); void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_calloc(size_t n, size_t m) { live++; return __real_calloc(n, m); }
void *__wrap_malloc(size_t n) { live++; return __real_malloc(n); }
void *__wrap_realloc(void *p, size_t n) { if (!p) live++; return __real_realloc(p, n); }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }

int main() {
    double zero = 0, one = 1, z = 0.5; int n = 2;
    libgrpp_init();
    long a = live;
    libgrpp_grpp_t *g = libgrpp_new_grpp();
    libgrpp_grpp_set_local_potential(g, libgrpp_new_potential(0, 0, 1, &n, &zero, &z));
    libgrpp_grpp_set_local_potential(g, libgrpp_new_potential(0, 0, 1, &n, &one, &z));
    libgrpp_delete_grpp(g);
    printf("%ld\n", live - a);
    return live != a;
}
