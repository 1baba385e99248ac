#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "libgrpp.h"

int main() {
    double A[3] = {0.1, 0.2, 0.3}, B[3] = {-0.2, 0.4, 0.1}, C[3] = {0.3, -0.1, 0.2}, one = 1, zero = 0, a = 0.8, b = 1.1, z = 0.5;
    int n = 2;
    libgrpp_init();
    libgrpp_shell_t *p = libgrpp_new_shell(A, 1, 1, &one, &a), *q = libgrpp_new_shell(B, 1, 1, &one, &b);
    libgrpp_grpp_t *g = libgrpp_new_grpp();
    libgrpp_grpp_add_spin_orbit_potential(g, libgrpp_new_potential(1, 0, 1, &n, &zero, &z));
    libgrpp_potential_t *u = libgrpp_new_potential(2, 0, 1, &n, &one, &z);
    libgrpp_grpp_add_spin_orbit_potential(g, u);
    double m[4][9], s[3][9];
    libgrpp_full_grpp_integrals(p, q, g, C, m[0], m[1], m[2], m[3]);
    libgrpp_spin_orbit_integrals(p, q, C, u, s[0], s[1], s[2]);
    for (int k = 0; k < 3; k++) for (int i = 0; i < 9; i++) if (fabs(m[k + 1][i] - 0.4 * s[k][i]) > 1e-12) { printf("%g %g\n", m[k + 1][i], 0.4 * s[k][i]); return 1; }
    return 0;
}
