#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "libgrpp.h"

int main() {
    double A[3] = {0, 0, 3}, C[3] = {0, 0, 0}, c[2] = {0.7, 0.5}, up[2] = {0.2, 40}, dn[2] = {40, 0.2}, c2[2] = {0.5, 0.7}, z = 0.5, u = 1;
    int n = 2;
    double m[2][3], *q;
    libgrpp_init();
    libgrpp_potential_t *p = libgrpp_new_potential(0, 0, 1, &n, &u, &z);
    for (int k = 0; k < 2; k++) {
        double *g[3] = {&m[k][0], &m[k][1], &m[k][2]};
        libgrpp_shell_t *s = libgrpp_new_shell(A, 0, 2, k ? c2 : c, k ? dn : up);
        libgrpp_type1_integrals_gradient(s, s, C, p, A, g);
    }
    printf("%g %g\n", m[0][2], m[1][2]);
    return fabs(m[0][2] - m[1][2]) > 1e-10;
}
