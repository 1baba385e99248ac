#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "libgrpp.h"

#include "nuclear_models.h"
/* field at r must follow from the charge inside (Gauss' law): V(r) = -Z/r + int_r^inf 4 pi rho(s) s (s/r... ) */
int main() {
    double Z = 20, c = 2.0, a = 0.6, r = 5.2, h = 1e-3, e = 0;
    /* V(r) = -Z/r - int_r^inf 4 pi s rho(s) ds + (1/r) int_r^inf 4 pi s^2 rho(s) ds */
    for (double s = r + h / 2; s < r + 60 * a; s += h) e += h * 4 * M_PI * libgrpp_charge_density_fermi(s, Z, c, a) * (s * s / r - s);
    double v = libgrpp_coulomb_potential_fermi(r, Z, c, a);
    printf("%.12g %.12g\n", v, -Z / r + e);
    return fabs(v - (-Z / r + e)) > 1e-2 * fabs(e);
}
