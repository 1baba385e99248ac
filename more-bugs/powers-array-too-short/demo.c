#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "libgrpp.h"

int main() {
    double A[3] = {0, 0, 0}, one = 1, a = 0.8, z = 0.5; int n = 2;
    libgrpp_init();
    libgrpp_shell_t *p = libgrpp_new_shell(A, 10, 1, &one, &a), *s = libgrpp_new_shell(A, 0, 1, &one, &a);
    libgrpp_potential_t *u = libgrpp_new_potential(10, 0, 1, &n, &one, &z);
    double m[66];
    libgrpp_type2_integrals(p, s, A, u, m);
    return 0;
}
/* this program does not release everything itself */
const char *__asan_default_options(void) { return "detect_leaks=0"; }
