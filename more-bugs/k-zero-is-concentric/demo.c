#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "libgrpp.h"

/* ball nucleus exactly between two p shells of equal exponent; a nucleus of tiny radius is a point charge */
int main() {
    double A[3] = {0, 0, -0.5}, B[3] = {0, 0, 0.5}, C[3] = {0, 0, 0}, one = 1, a = 0.8, r = 1e-4, m[9], e[9];
    libgrpp_init();
    libgrpp_shell_t *p = libgrpp_new_shell(A, 1, 1, &one, &a), *q = libgrpp_new_shell(B, 1, 1, &one, &a);
    libgrpp_nuclear_attraction_integrals(p, q, C, 10, LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL, &r, m);
    libgrpp_nuclear_attraction_integrals(p, q, C, 10, LIBGRPP_NUCLEAR_MODEL_POINT_CHARGE, NULL, e);
    for (int i = 0; i < 9; i++) if (fabs(m[i] - e[i]) > 1e-3) { printf("%d: %g %g\n", i, m[i], e[i]); return 1; }
    return 0;
}
