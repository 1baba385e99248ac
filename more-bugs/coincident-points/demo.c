#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "libgrpp.h"

/* d<s|p>/dA is not zero when the shells are 5e-5 apart */
int main() {
    double A[3] = {0, 0, 0}, B[3] = {0, 0, 5e-5}, one = 1, a = 1, m[3][3], *q[3] = {m[0], m[1], m[2]}, S[3];
    libgrpp_init();
    libgrpp_shell_t *s = libgrpp_new_shell(A, 0, 1, &one, &a), *p = libgrpp_new_shell(B, 1, 1, &one, &a);
    libgrpp_overlap_integrals(s, p, S);
    libgrpp_overlap_integrals_gradient(s, p, A, q);
    double h = 1e-3, e;
    libgrpp_shell_t *s2; double A2[3] = {0, 0, h}, S2[3];
    s2 = libgrpp_new_shell(A2, 0, 1, &one, &a);
    libgrpp_overlap_integrals(s2, p, S2);
    e = (S2[2] - S[2]) / h;
    printf("%g %g\n", m[2][2], e);
    return fabs(m[2][2] - e) > 1e-3;
}
