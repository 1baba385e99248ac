#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "libgrpp.h"

int main() {
    double A[3] = {0.1, 0.2, -0.3}, B[3] = {0.11, 0.205, -0.29}, one = 1, a = 3500.0, b = 2000.0, s, t;
    libgrpp_init();
    libgrpp_shell_t *p = libgrpp_new_shell(A, 0, 1, &one, &a), *q = libgrpp_new_shell(B, 0, 1, &one, &b);
    libgrpp_overlap_integrals(p, q, &s);
    for (int k = 0; k < 3; k++) { p->origin[k] += 200; q->origin[k] += 200; }
    libgrpp_overlap_integrals(p, q, &t);
    printf("%.15g %.15g\n", s, t);
    return fabs(s - t) > 3e-10;
}
