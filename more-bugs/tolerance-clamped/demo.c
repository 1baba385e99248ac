#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "libgrpp.h"

/* restoring the defaults must give the results of a fresh process */
double B[3] = {0.3, -0.4, 0.6}, C[3] = {0, 0, 0}, r = 1e-4;
int calc(double *out) {
    int k = 0;
    for (int la = 0; la < 3; la++) for (int lb = 0; lb < 3; lb++) for (double a = 0.05; a < 300; a *= 3) {
        double one = 1, b = 0.7, A[3] = {0.1, 0.2, -0.5};
        libgrpp_shell_t *p = libgrpp_new_shell(A, la, 1, &one, &a), *q = libgrpp_new_shell(B, lb, 1, &one, &b);
        libgrpp_nuclear_attraction_integrals(p, q, C, 10, LIBGRPP_NUCLEAR_MODEL_GAUSSIAN, &r, out + k);
        k += p->cart_size * q->cart_size;
        libgrpp_delete_shell(p); libgrpp_delete_shell(q);
    }
    return k;
}
int main() {
    static double x[10000], y[10000];
    libgrpp_init();
    int k = calc(x);
    libgrpp_set_radial_tolerance(1e-6);
    libgrpp_set_default_parameters();
    calc(y);
    int n = 0; for (int i = 0; i < k; i++) n += x[i] != y[i];
    printf("%d of %d differ\n", n, k);
    return n != 0;
}
