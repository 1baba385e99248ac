#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "libgrpp.h"

#include <pthread.h>
double C[3] = {0, 0, 0}, O[2][3] = {{0.3, -0.5, 0.7}, {-0.8, 0.2, 0.4}}, one = 1, al[2] = {0.8, 1.1}, z = 0.5;
int n = 2; libgrpp_potential_t *u; double ref[2][3][9]; volatile int bad;
libgrpp_shell_t *s[2];
void calc(int k, double m[3][9]) { libgrpp_spin_orbit_integrals(s[k], s[1 - k], C, u, m[0], m[1], m[2]); }
void *run(void *p) { int k = (int) (long) p; double m[3][9]; for (int i = 0; i < 300 && !bad; i++) { calc(k, m); if (memcmp(m, ref[k], sizeof m)) bad = 1; } return 0; }
int main() {
    libgrpp_init();
    for (int k = 0; k < 2; k++) s[k] = libgrpp_new_shell(O[k], 1, 1, &one, &al[k]);
    u = libgrpp_new_potential(1, 0, 1, &n, &one, &z);
    calc(0, ref[0]); calc(1, ref[1]);
    pthread_t t[8];
    for (long k = 0; k < 8; k++) pthread_create(&t[k], 0, run, (void *) (k % 2));
    for (int k = 0; k < 8; k++) pthread_join(t[k], 0);
    return bad;
}
