#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "libgrpp.h"

/* along z, functions z^10: compare with the quadrature */
int main() {
    double A[3] = {0, 0, 0}, B[3] = {0, 0, 11}, one = 1, a = 0.62, b = 0.62, s[66 * 66], S1 = 0, N, h = 1e-3, z;
    libgrpp_init();
    libgrpp_shell_t *p = libgrpp_new_shell(A, 10, 1, &one, &a), *q = libgrpp_new_shell(B, 10, 1, &one, &b);
    libgrpp_overlap_integrals(p, q, s);
    N = pow(2 * a / M_PI, 1.5) * pow(4 * a, 10);
    for (z = -10; z < 21; z += h) S1 += h * pow(z, 10) * pow(z - 11, 10) * exp(-a * z * z - b * (z - 11) * (z - 11));
    S1 *= N * M_PI / (a + b);
    printf("%.12g %.12g\n", s[66 * 66 - 1], S1);
    return fabs(s[66 * 66 - 1] - S1) > 1e-8 * fmax(1, fabs(S1));
}
