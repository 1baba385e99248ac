#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "libgrpp.h"

int main() {
    double A[3] = {0, 0, 0}, one = 1, c[2] = {2e-5, 1}, a[2] = {30000, 0.5}, m, s = 0, t;
    libgrpp_init();
    libgrpp_shell_t *p = libgrpp_new_shell(A, 0, 2, c, a), *u[2] = {libgrpp_new_shell(A, 0, 1, &one, a), libgrpp_new_shell(A, 0, 1, &one, a + 1)};
    libgrpp_kinetic_energy_integrals(p, p, &m);
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { libgrpp_kinetic_energy_integrals(u[i], u[j], &t); s += c[i] * c[j] * t; }
    printf("%.15g %.15g\n", m, s);
    return fabs(m - s) > 1e-8;
}
