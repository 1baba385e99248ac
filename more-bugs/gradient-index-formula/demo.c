#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "libgrpp.h"

/* reversed order of components: elements of the gradient must only be permuted */
int rev(int L, int *c) {
    int n = (L + 1) * (L + 2) / 2, k = n;
    for (int r = L; r >= 0; r--) for (int s = L - r; s >= 0; s--) { k--; c[3 * k] = r; c[3 * k + 1] = s; c[3 * k + 2] = L - r - s; }
    return n;
}
double A[3] = {0.1, 0.2, -0.3}, B[3] = {-0.4, 0.5, 0.6}, one = 1, aa = 0.7, ab = 1.2, g[3][18];
void run() {
    libgrpp_shell_t *a = libgrpp_new_shell(A, 2, 1, &one, &aa), *b = libgrpp_new_shell(B, 1, 1, &one, &ab);
    double *q[3] = {g[0], g[1], g[2]};
    libgrpp_overlap_integrals_gradient(a, b, A, q);
}
int main() {
    double h[3][18];
    libgrpp_init();
    run(); memcpy(h, g, sizeof g);
    libgrpp_set_cartesian_generator(rev);
    run();
    for (int q = 0; q < 3; q++) for (int i = 0; i < 6; i++) for (int j = 0; j < 3; j++)
        if (fabs(g[q][i * 3 + j] - h[q][(5 - i) * 3 + 2 - j]) > 1e-12) { printf("%d %d %d: %g %g\n", q, i, j, g[q][i * 3 + j], h[q][(5 - i) * 3 + 2 - j]); return 1; }
    return 0;
}
