#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "libgrpp.h"
static long live;
void *__real_calloc(size_t, size_t); void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_calloc(size_t n, size_t m) { live++; return __real_calloc(n, m); }
void *__wrap_malloc(size_t n) { live++; return __real_malloc(n); }
void *__wrap_realloc(void *p, size_t n) { if (!p) live++; return __real_realloc(p, n); }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }

int main() {
    libgrpp_init(); libgrpp_finalize();
    long a = live;
    for (int i = 0; i < 3; i++) { libgrpp_init(); libgrpp_finalize(); }
    printf("%ld\n", live - a);
    return live != a;
}
