#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "libgrpp.h"

int main() {
    double C[3] = {0, 0, 0}, A[3] = {0, 0, 9e-4}, one = 1, a = 11.3, b = 17.2, z = 1.5, m[1];
    int n = 1;
    libgrpp_init();
    libgrpp_shell_t *p = libgrpp_new_shell(A, 0, 1, &one, &a), *q = libgrpp_new_shell(A, 0, 1, &one, &b);
    libgrpp_potential_t *u = libgrpp_new_potential(0, 0, 1, &n, &one, &z);
    libgrpp_type1_integrals(p, q, C, u, m);
    double s = a + b + z, Q = A[2] * (a + b) / s, x = s * Q * Q, mu = (a + b) * z / s;
    double ref = pow(2 * a / M_PI, 0.75) * pow(2 * b / M_PI, 0.75) * 2 * M_PI / s * exp(-mu * A[2] * A[2]) * 0.5 * sqrt(M_PI / x) * erf(sqrt(x));
    printf("%.15g %.15g\n", m[0], ref);
    return fabs(m[0] - ref) > 1e-9;
}
