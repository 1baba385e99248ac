#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "libgrpp.h"

int main() {
    double A[3] = {0.1, 0.2, 0.3}, D[3] = {0.1, 0.2, 0.301}, one = 1, a = 0.8, b = 1.1, z = 0.5;
    int n = 2;
    libgrpp_init();
    libgrpp_shell_t *p = libgrpp_new_shell(A, 5, 1, &one, &a), *q = libgrpp_new_shell(A, 1, 1, &one, &b);
    libgrpp_potential_t *u = libgrpp_new_potential(1, 0, 1, &n, &one, &z);
    double s[6][21 * 3], m0 = 0, m1 = 0;
    libgrpp_spin_orbit_integrals(p, q, A, u, s[0], s[1], s[2]);
    libgrpp_spin_orbit_integrals(p, q, D, u, s[3], s[4], s[5]);
    for (int i = 0; i < 63; i++) { m0 = fmax(m0, fabs(s[0][i])); m1 = fmax(m1, fabs(s[3][i])); }
    printf("%g %g\n", m0, m1);
    return fabs(m0 - m1) > 0.1 * m1;
}
