From 5757664af178edebe93ad84fe1526848c3645382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:07 +0000
Subject: [PATCH 01/15] fix: stack buffers too small for shells with the
 maximum angular momentum

---
 libgrpp/kinetic.c                  | 4 ++--
 libgrpp/momentum.c                 | 4 ++--
 libgrpp/overlap.c                  | 2 +-
 libgrpp/type1_mcmurchie_davidson.c | 6 +++++-
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/libgrpp/kinetic.c b/libgrpp/kinetic.c
index 2c6fca3..bce3f7d 100644
--- a/libgrpp/kinetic.c
+++ b/libgrpp/kinetic.c
@@ -83,7 +83,7 @@ void kinetic_energy_integrals_shell_pair_obara_saika(
     double *B = shell_B->origin;
 
     // calculate S_ij
-    double S[3][LIBGRPP_MAX_BASIS_L + 2][LIBGRPP_MAX_BASIS_L + 2];
+    double S[3][LIBGRPP_MAX_BASIS_L + 3][LIBGRPP_MAX_BASIS_L + 3];
 
     for (int coord = 0; coord < 3; coord++) {
         double P = (alpha_A * A[coord] + alpha_B * B[coord]) / p;
@@ -124,7 +124,7 @@ void kinetic_energy_integrals_shell_pair_obara_saika(
 
     // calculate D^2_ij
 
-    double D2[3][LIBGRPP_MAX_BASIS_L][LIBGRPP_MAX_BASIS_L];
+    double D2[3][LIBGRPP_MAX_BASIS_L + 1][LIBGRPP_MAX_BASIS_L + 1];
 
     for (int coord = 0; coord < 3; coord++) {
         for (int i = 0; i <= L_A; i++) {
diff --git a/libgrpp/momentum.c b/libgrpp/momentum.c
index 849457c..0a30146 100644
--- a/libgrpp/momentum.c
+++ b/libgrpp/momentum.c
@@ -105,7 +105,7 @@ void momentum_integrals_shell_pair_obara_saika(
     double *B = shell_B->origin;
 
     // calculate S_ij
-    double S[3][LIBGRPP_MAX_BASIS_L + 1][LIBGRPP_MAX_BASIS_L + 1];
+    double S[3][LIBGRPP_MAX_BASIS_L + 2][LIBGRPP_MAX_BASIS_L + 2];
 
     for (int coord = 0; coord < 3; coord++) {
         double P = (alpha_A * A[coord] + alpha_B * B[coord]) / p;
@@ -146,7 +146,7 @@ void momentum_integrals_shell_pair_obara_saika(
 
     // calculate D^1_ij
 
-    double D1[3][LIBGRPP_MAX_BASIS_L][LIBGRPP_MAX_BASIS_L];
+    double D1[3][LIBGRPP_MAX_BASIS_L + 1][LIBGRPP_MAX_BASIS_L + 1];
 
     for (int coord = 0; coord < 3; coord++) {
         for (int i = 0; i <= L_A; i++) {
diff --git a/libgrpp/overlap.c b/libgrpp/overlap.c
index fed9620..6ae6098 100644
--- a/libgrpp/overlap.c
+++ b/libgrpp/overlap.c
@@ -83,7 +83,7 @@ void overlap_integrals_shell_pair_obara_saika(
     double *A = shell_A->origin;
     double *B = shell_B->origin;
 
-    double S[3][LIBGRPP_MAX_BASIS_L][LIBGRPP_MAX_BASIS_L];
+    double S[3][LIBGRPP_MAX_BASIS_L + 2][LIBGRPP_MAX_BASIS_L + 2]; // L+1 is required for gradients
 
     for (int coord = 0; coord < 3; coord++) {
         double P = (alpha_A * A[coord] + alpha_B * B[coord]) / p;
diff --git a/libgrpp/type1_mcmurchie_davidson.c b/libgrpp/type1_mcmurchie_davidson.c
index a658bb0..6696b53 100644
--- a/libgrpp/type1_mcmurchie_davidson.c
+++ b/libgrpp/type1_mcmurchie_davidson.c
@@ -48,7 +48,11 @@
 #include "norm_gaussian.h"
 #include "utils.h"
 
-#define LMAX LIBGRPP_MAX_BASIS_L
+/*
+ * number of possible angular momenta of a shell:
+ * L = 0, ..., LIBGRPP_MAX_BASIS_L and, in addition, L = LIBGRPP_MAX_BASIS_L + 1 (required for gradients)
+ */
+#define LMAX (LIBGRPP_MAX_BASIS_L + 2)
 
 
 /*
-- 
2.43.0


From 9b9cce4f84713c5308e4dae20b01921b27e8ec6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:07 +0000
Subject: [PATCH 02/15] fix: double_factorial() aborts for n > 30

---
 libgrpp/factorial.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgrpp/factorial.c b/libgrpp/factorial.c
index 1e1fae9..444dc88 100644
--- a/libgrpp/factorial.c
+++ b/libgrpp/factorial.c
@@ -104,7 +104,7 @@ static uint64_t pretabulated_double_factorials[] = {
 
 double double_factorial(int n)
 {
-    assert(n >= -1 && n <= 30);
+    assert(n >= -1);
     if (n == -1) {
         return 1;
     } else if (n <= 30) {
-- 
2.43.0


From f4372d912ffaba56c985abe9a26b3bdd5f876eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:07 +0000
Subject: [PATCH 03/15] fix: wrong model parameters passed by the nuclear-model
 specific attraction routines

---
 libgrpp/nuclear_attraction.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/libgrpp/nuclear_attraction.c b/libgrpp/nuclear_attraction.c
index a2fb118..04f2bec 100644
--- a/libgrpp/nuclear_attraction.c
+++ b/libgrpp/nuclear_attraction.c
@@ -196,8 +196,7 @@ void libgrpp_nuclear_attraction_integrals_charged_ball(
     double *charge_origin, int charge, double r_rms, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = r_rms;
+    params[0] = r_rms;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL, params, coulomb_matrix);
@@ -216,8 +215,7 @@ void libgrpp_nuclear_attraction_integrals_gaussian_model(
     double *charge_origin, int charge, double r_rms, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = r_rms;
+    params[0] = r_rms;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_GAUSSIAN, params, coulomb_matrix);
@@ -236,9 +234,8 @@ void libgrpp_nuclear_attraction_integrals_fermi_model(
     double *charge_origin, int charge, double fermi_param_c, double fermi_param_a, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = fermi_param_c;
-    params[2] = fermi_param_a;
+    params[0] = fermi_param_c;
+    params[1] = fermi_param_a;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_FERMI, params, coulomb_matrix);
@@ -258,10 +255,9 @@ void libgrpp_nuclear_attraction_integrals_fermi_bubble_model(
     double *charge_origin, int charge, double param_c, double param_a, double param_k, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = param_c;
-    params[2] = param_a;
-    params[3] = param_k;
+    params[0] = param_c;
+    params[1] = param_a;
+    params[2] = param_k;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_FERMI_BUBBLE, params, coulomb_matrix);
-- 
2.43.0


From fddde76fa91a659c13956bb79af9e7c596096e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:40 +0000
Subject: [PATCH 04/15] fix: inaccurate Boys function of high orders for x > 30

---
 libgrpp/specfunc_boys.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/libgrpp/specfunc_boys.c b/libgrpp/specfunc_boys.c
index ca95ef7..447a4fe 100644
--- a/libgrpp/specfunc_boys.c
+++ b/libgrpp/specfunc_boys.c
@@ -9,7 +9,6 @@
 #include <stdio.h>
 #include <string.h>
 
-#include "factorial.h"
 #include "specfunc.h"
 
 extern const double boys_table[301][40];
@@ -41,8 +40,19 @@ double boys_function(int n, double x)
                + boys_values[n + 6] * dx6 / 720.0;
     }
     else {
-        // asymptotic behaviour
-        return double_factorial(2 * n - 1) / pow(2.0, n + 1) * sqrt(M_PI / pow(x, 2 * n + 1));
+        /*
+         * upward recursion, starts from:
+         * F0(x) = 1/2 sqrt(pi/x) erf(sqrt(x))
+         * (the leading term of the asymptotic expansion only is not accurate enough for large n)
+         */
+        double exp_x = exp(-x);
+        double value = 0.5 * sqrt(M_PI / x) * erf(sqrt(x));
+
+        for (int k = 0; k < n; k++) {
+            value = ((2 * k + 1) * value - exp_x) / (2.0 * x);
+        }
+
+        return value;
     }
 }
 
-- 
2.43.0


From 5312cfe06407200c16c1a5c6c63c0f9f1ffb3e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:10 +0000
Subject: [PATCH 05/15] fix: outercore integrals modify the outercore shells
 passed as arguments

---
 libgrpp/outercore_integrals.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/libgrpp/outercore_integrals.c b/libgrpp/outercore_integrals.c
index 99b8073..b008441 100644
--- a/libgrpp/outercore_integrals.c
+++ b/libgrpp/outercore_integrals.c
@@ -103,13 +103,6 @@ void libgrpp_outercore_potential_integrals(
     memset(esop_y, 0, size_A * size_B * sizeof(double));
     memset(esop_z, 0, size_A * size_B * sizeof(double));
 
-    // bind outercore shells of the GRPP to the RPP center
-    for (int ioc = 0; ioc < num_oc_shells; ioc++) {
-        oc_shells[ioc]->origin[0] = rpp_origin[0];
-        oc_shells[ioc]->origin[1] = rpp_origin[1];
-        oc_shells[ioc]->origin[2] = rpp_origin[2];
-    }
-
     // 1. the U * |nlj><nlj| + |nlj><nlj| * U part
     for (int ioc = 0; ioc < num_oc_shells; ioc++) {
         libgrpp_potential_t *pot = oc_potentials[ioc];
@@ -158,7 +151,10 @@ void libgrpp_outercore_potential_integrals_part_1(
 
     /*
      * foolproof: bind outercore shells to the ECP center
+     * (local copy is used: the shell can be shared between threads)
      */
+    libgrpp_shell_t oc_shell_at_C = *oc_shell;
+    oc_shell = &oc_shell_at_C;
     oc_shell->origin[0] = C[0];
     oc_shell->origin[1] = C[1];
     oc_shell->origin[2] = C[2];
@@ -293,7 +289,12 @@ void libgrpp_outercore_potential_integrals_part_2(
 
     /*
      * foolproof: bind outercore shells to the ECP center
+     * (local copies are used: shells can be shared between threads)
      */
+    libgrpp_shell_t oc_shell_1_at_C = *oc_shell_1;
+    libgrpp_shell_t oc_shell_2_at_C = *oc_shell_2;
+    oc_shell_1 = &oc_shell_1_at_C;
+    oc_shell_2 = &oc_shell_2_at_C;
     oc_shell_1->origin[0] = C[0];
     oc_shell_1->origin[1] = C[1];
     oc_shell_1->origin[2] = C[2];
-- 
2.43.0


From e010c94cda6ab009f78e60a17d53ccc1f6bc6d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:13 +0000
Subject: [PATCH 06/15] fix: outercore integrals over outercore shells with
 different cartesian orders

---
 libgrpp/outercore_integrals.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libgrpp/outercore_integrals.c b/libgrpp/outercore_integrals.c
index b008441..5ae27da 100644
--- a/libgrpp/outercore_integrals.c
+++ b/libgrpp/outercore_integrals.c
@@ -322,6 +322,7 @@ void libgrpp_outercore_potential_integrals_part_2(
      * Columns: cartesians x^r y^s z^t
      */
     double *S_lm_coef = (double *) calloc((2 * L + 1) * size_nlj, sizeof(double));
+    double *S_lm_coef_2 = (double *) calloc((2 * L + 1) * size_nlj, sizeof(double));
     for (int m = -L; m <= +L; m++) {
         for (int icart = 0; icart < size_nlj; icart++) {
             int r = oc_shell_1->cart_list[3 * icart + 0];
@@ -329,6 +330,13 @@ void libgrpp_outercore_potential_integrals_part_2(
             int t = oc_shell_1->cart_list[3 * icart + 2];
             double u = spherical_to_cartesian_coef(L, m, r, s, t) / ang_norm_factor(r, s, t);
             S_lm_coef[size_nlj * (m + L) + icart] = u;
+
+            // order of cartesian components in the second shell can be different
+            r = oc_shell_2->cart_list[3 * icart + 0];
+            s = oc_shell_2->cart_list[3 * icart + 1];
+            t = oc_shell_2->cart_list[3 * icart + 2];
+            u = spherical_to_cartesian_coef(L, m, r, s, t) / ang_norm_factor(r, s, t);
+            S_lm_coef_2[size_nlj * (m + L) + icart] = u;
         }
     }
 
@@ -347,7 +355,7 @@ void libgrpp_outercore_potential_integrals_part_2(
     libgrpp_overlap_integrals(oc_shell_2, shell_B, S_nljm2_b_cart);  // <nljm|B>
     libgrpp_overlap_integrals(shell_A, oc_shell_1, S_a_nljm1_cart);  // <A|nljm>
     transform_to_sph_basis_ket(size_A, size_nlj, 2 * L + 1, S_a_nljm1_cart, S_a_nljm1, S_lm_coef);
-    transform_to_sph_basis_bra(size_nlj, 2 * L + 1, size_B, S_nljm2_b_cart, S_nljm2_b, S_lm_coef);
+    transform_to_sph_basis_bra(size_nlj, 2 * L + 1, size_B, S_nljm2_b_cart, S_nljm2_b, S_lm_coef_2);
     free(S_nljm2_b_cart);
     free(S_a_nljm1_cart);
 
@@ -388,6 +396,7 @@ void libgrpp_outercore_potential_integrals_part_2(
     free(S_nljm2_b);
     free(S_a_nljm1);
     free(S_lm_coef);
+    free(S_lm_coef_2);
 }
 
 
-- 
2.43.0


From 704f46e49abd9faeab6f48292384714c3b1e4314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:13 +0000
Subject: [PATCH 07/15] fix: libgrpp_shell_deep_copy() does not preserve the
 order of cartesian components

---
 libgrpp/shell.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libgrpp/shell.c b/libgrpp/shell.c
index 3024fd5..13d3df4 100644
--- a/libgrpp/shell.c
+++ b/libgrpp/shell.c
@@ -56,6 +56,11 @@ libgrpp_shell_t *libgrpp_shell_deep_copy(libgrpp_shell_t *src_shell)
         src_shell->alpha
     );
 
+    // the order of cartesian components could have been changed since the creation of the source shell
+    for (int i = 0; i < 3 * src_shell->cart_size; i++) {
+        new_shell->cart_list[i] = src_shell->cart_list[i];
+    }
+
     return new_shell;
 }
 
-- 
2.43.0


From 14bac7454a28c43689a53731aa24590c600938d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:57 +0000
Subject: [PATCH 08/15] fix: gradient routines modify their arguments, read out
 of bounds and mix cartesian orders

---
 libgrpp/grpp_integrals_gradient.c | 60 ++++++++++++-------------------
 libgrpp/overlap_gradient.c        | 15 ++++----
 2 files changed, 31 insertions(+), 44 deletions(-)

diff --git a/libgrpp/grpp_integrals_gradient.c b/libgrpp/grpp_integrals_gradient.c
index 5e56128..433919d 100644
--- a/libgrpp/grpp_integrals_gradient.c
+++ b/libgrpp/grpp_integrals_gradient.c
@@ -446,30 +446,24 @@ void grpp_gradient_diff_bra_contribution(
                 bra_nlm[1] = shell_A->cart_list[3 * i + 1];
                 bra_nlm[2] = shell_A->cart_list[3 * i + 2];
 
-                int ket_nlm[3];
-                ket_nlm[0] = shell_B->cart_list[3 * j + 0];
-                ket_nlm[1] = shell_B->cart_list[3 * j + 1];
-                ket_nlm[2] = shell_B->cart_list[3 * j + 2];
-
                 int index = i * shell_B->cart_size + j;
 
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (shell_A->L > 0) {
+                if (bra_nlm[icoord] > 0) {
                     bra_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
-                    int ket_index = nlm_to_linear(ket_nlm);
                     bra_nlm[icoord] += 1;
 
                     grad_arep[icoord][index] -=
-                        factor * bra_nlm[icoord] * arep_matrix_down[shell_B->cart_size * bra_index + ket_index];
+                        factor * bra_nlm[icoord] * arep_matrix_down[shell_B->cart_size * bra_index + j];
                     grad_so_x[icoord][index] -=
-                        factor * bra_nlm[icoord] * so_x_matrix_down[shell_B->cart_size * bra_index + ket_index];
+                        factor * bra_nlm[icoord] * so_x_matrix_down[shell_B->cart_size * bra_index + j];
                     grad_so_y[icoord][index] -=
-                        factor * bra_nlm[icoord] * so_y_matrix_down[shell_B->cart_size * bra_index + ket_index];
+                        factor * bra_nlm[icoord] * so_y_matrix_down[shell_B->cart_size * bra_index + j];
                     grad_so_z[icoord][index] -=
-                        factor * bra_nlm[icoord] * so_z_matrix_down[shell_B->cart_size * bra_index + ket_index];
+                        factor * bra_nlm[icoord] * so_z_matrix_down[shell_B->cart_size * bra_index + j];
                 }
 
                 /*
@@ -477,13 +471,12 @@ void grpp_gradient_diff_bra_contribution(
                  */
                 bra_nlm[icoord] += 1;
                 int bra_index = nlm_to_linear(bra_nlm);
-                int ket_index = nlm_to_linear(ket_nlm);
                 bra_nlm[icoord] -= 1;
 
-                grad_arep[icoord][index] += factor * arep_matrix_up[shell_B->cart_size * bra_index + ket_index];
-                grad_so_x[icoord][index] += factor * so_x_matrix_up[shell_B->cart_size * bra_index + ket_index];
-                grad_so_y[icoord][index] += factor * so_y_matrix_up[shell_B->cart_size * bra_index + ket_index];
-                grad_so_z[icoord][index] += factor * so_z_matrix_up[shell_B->cart_size * bra_index + ket_index];
+                grad_arep[icoord][index] += factor * arep_matrix_up[shell_B->cart_size * bra_index + j];
+                grad_so_x[icoord][index] += factor * so_x_matrix_up[shell_B->cart_size * bra_index + j];
+                grad_so_y[icoord][index] += factor * so_y_matrix_up[shell_B->cart_size * bra_index + j];
+                grad_so_z[icoord][index] += factor * so_z_matrix_up[shell_B->cart_size * bra_index + j];
             }
         }
     }
@@ -635,11 +628,6 @@ void grpp_gradient_diff_ket_contribution(
         for (int i = 0; i < shell_A->cart_size; i++) {
             for (int j = 0; j < shell_B->cart_size; j++) {
 
-                int bra_nlm[3];
-                bra_nlm[0] = shell_A->cart_list[3 * i + 0];
-                bra_nlm[1] = shell_A->cart_list[3 * i + 1];
-                bra_nlm[2] = shell_A->cart_list[3 * i + 2];
-
                 int ket_nlm[3];
                 ket_nlm[0] = shell_B->cart_list[3 * j + 0];
                 ket_nlm[1] = shell_B->cart_list[3 * j + 1];
@@ -650,34 +638,32 @@ void grpp_gradient_diff_ket_contribution(
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (shell_B->L > 0) {
+                if (ket_nlm[icoord] > 0) {
                     ket_nlm[icoord] -= 1;
-                    int bra_index = nlm_to_linear(bra_nlm);
                     int ket_index = nlm_to_linear(ket_nlm);
                     ket_nlm[icoord] += 1;
 
                     grad_arep[icoord][index] -=
-                        factor * ket_nlm[icoord] * arep_matrix_down[cart_size_down * bra_index + ket_index];
+                        factor * ket_nlm[icoord] * arep_matrix_down[cart_size_down * i + ket_index];
                     grad_so_x[icoord][index] -=
-                        factor * ket_nlm[icoord] * so_x_matrix_down[cart_size_down * bra_index + ket_index];
+                        factor * ket_nlm[icoord] * so_x_matrix_down[cart_size_down * i + ket_index];
                     grad_so_y[icoord][index] -=
-                        factor * ket_nlm[icoord] * so_y_matrix_down[cart_size_down * bra_index + ket_index];
+                        factor * ket_nlm[icoord] * so_y_matrix_down[cart_size_down * i + ket_index];
                     grad_so_z[icoord][index] -=
-                        factor * ket_nlm[icoord] * so_z_matrix_down[cart_size_down * bra_index + ket_index];
+                        factor * ket_nlm[icoord] * so_z_matrix_down[cart_size_down * i + ket_index];
                 }
 
                 /*
                  * contribution from the L+1 gaussian
                  */
                 ket_nlm[icoord] += 1;
-                int bra_index = nlm_to_linear(bra_nlm);
                 int ket_index = nlm_to_linear(ket_nlm);
                 ket_nlm[icoord] -= 1;
 
-                grad_arep[icoord][index] += factor * arep_matrix_up[cart_size_up * bra_index + ket_index];
-                grad_so_x[icoord][index] += factor * so_x_matrix_up[cart_size_up * bra_index + ket_index];
-                grad_so_y[icoord][index] += factor * so_y_matrix_up[cart_size_up * bra_index + ket_index];
-                grad_so_z[icoord][index] += factor * so_z_matrix_up[cart_size_up * bra_index + ket_index];
+                grad_arep[icoord][index] += factor * arep_matrix_up[cart_size_up * i + ket_index];
+                grad_so_x[icoord][index] += factor * so_x_matrix_up[cart_size_up * i + ket_index];
+                grad_so_y[icoord][index] += factor * so_y_matrix_up[cart_size_up * i + ket_index];
+                grad_so_z[icoord][index] += factor * so_z_matrix_up[cart_size_up * i + ket_index];
             }
         }
     }
@@ -852,10 +838,10 @@ void grpp_gradient_contribution(
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (cart_size_down > 0) {
+                if (diff_nlm[icoord] > 0) {
                     diff_nlm[icoord] -= 1;
-                    int bra_index = nlm_to_linear(bra_nlm);
-                    int ket_index = nlm_to_linear(ket_nlm);
+                    int bra_index = diff_bra ? nlm_to_linear(bra_nlm) : i;
+                    int ket_index = diff_bra ? j : nlm_to_linear(ket_nlm);
                     diff_nlm[icoord] += 1;
 
                     int n = diff_nlm[icoord];
@@ -872,8 +858,8 @@ void grpp_gradient_contribution(
                  * contribution from the L+1 gaussian
                  */
                 diff_nlm[icoord] += 1;
-                int bra_index = nlm_to_linear(bra_nlm);
-                int ket_index = nlm_to_linear(ket_nlm);
+                int bra_index = diff_bra ? nlm_to_linear(bra_nlm) : i;
+                int ket_index = diff_bra ? j : nlm_to_linear(ket_nlm);
                 diff_nlm[icoord] -= 1;
 
                 int row_len = diff_bra ? shell_B->cart_size : cart_size_up;
diff --git a/libgrpp/overlap_gradient.c b/libgrpp/overlap_gradient.c
index de99af4..a732bb2 100644
--- a/libgrpp/overlap_gradient.c
+++ b/libgrpp/overlap_gradient.c
@@ -115,21 +115,23 @@ void overlap_gradient_diff_bra_contribution(
         for (int i = 0; i < shell_A->cart_size; i++) {
             for (int j = 0; j < shell_B->cart_size; j++) {
 
-                int *bra_nlm = shell_A->cart_list + 3 * i;
-                int *ket_nlm = shell_B->cart_list + 3 * j;
+                int bra_nlm[3];
+                bra_nlm[0] = shell_A->cart_list[3 * i + 0];
+                bra_nlm[1] = shell_A->cart_list[3 * i + 1];
+                bra_nlm[2] = shell_A->cart_list[3 * i + 2];
+
                 int index = i * shell_B->cart_size + j;
 
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (shell_A->L > 0) {
+                if (bra_nlm[icoord] > 0) {
                     bra_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
-                    int ket_index = nlm_to_linear(ket_nlm);
                     bra_nlm[icoord] += 1;
 
                     grad[icoord][index] -=
-                        factor * bra_nlm[icoord] * overlap_down[shell_B->cart_size * bra_index + ket_index];
+                        factor * bra_nlm[icoord] * overlap_down[shell_B->cart_size * bra_index + j];
                 }
 
                 /*
@@ -137,10 +139,9 @@ void overlap_gradient_diff_bra_contribution(
                  */
                 bra_nlm[icoord] += 1;
                 int bra_index = nlm_to_linear(bra_nlm);
-                int ket_index = nlm_to_linear(ket_nlm);
                 bra_nlm[icoord] -= 1;
 
-                grad[icoord][index] += factor * overlap_up[shell_B->cart_size * bra_index + ket_index];
+                grad[icoord][index] += factor * overlap_up[shell_B->cart_size * bra_index + j];
             }
         }
     }
-- 
2.43.0


From 479609058869aa2e7fdbd96b7ea0d5ae80e23645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:24 +0000
Subject: [PATCH 09/15] fix: GRPP container overflows when more than 100
 potentials are added

---
 libgrpp/grpp.c | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/libgrpp/grpp.c b/libgrpp/grpp.c
index 75b10f8..99c4d90 100644
--- a/libgrpp/grpp.c
+++ b/libgrpp/grpp.c
@@ -9,7 +9,21 @@
 
 #include <stdlib.h>
 
-#define LIBGRPP_MAX_NUMBER_POTENTIALS 100
+// arrays of potentials are extended by blocks of this size
+#define LIBGRPP_NUMBER_POTENTIALS_BLOCK 100
+
+
+/**
+ * ensures that one more pointer can be added to the array which already contains 'count' pointers
+ */
+static void *reserve_place(void *array, int count)
+{
+    if (count % LIBGRPP_NUMBER_POTENTIALS_BLOCK != 0) {
+        return array;
+    }
+
+    return realloc(array, (count + LIBGRPP_NUMBER_POTENTIALS_BLOCK) * sizeof(void *));
+}
 
 
 libgrpp_grpp_t *libgrpp_new_grpp()
@@ -30,9 +44,7 @@ void libgrpp_grpp_set_local_potential(libgrpp_grpp_t *grpp, libgrpp_potential_t
 
 void libgrpp_grpp_add_averaged_potential(libgrpp_grpp_t *grpp, libgrpp_potential_t *pot)
 {
-    if (grpp->n_arep == 0) {
-        grpp->U_arep = (libgrpp_potential_t **) calloc(LIBGRPP_MAX_NUMBER_POTENTIALS, sizeof(libgrpp_potential_t *));
-    }
+    grpp->U_arep = (libgrpp_potential_t **) reserve_place(grpp->U_arep, grpp->n_arep);
 
     grpp->U_arep[grpp->n_arep++] = pot;
 }
@@ -40,9 +52,7 @@ void libgrpp_grpp_add_averaged_potential(libgrpp_grpp_t *grpp, libgrpp_potential
 
 void libgrpp_grpp_add_spin_orbit_potential(libgrpp_grpp_t *grpp, libgrpp_potential_t *pot)
 {
-    if (grpp->n_esop == 0) {
-        grpp->U_esop = (libgrpp_potential_t **) calloc(LIBGRPP_MAX_NUMBER_POTENTIALS, sizeof(libgrpp_potential_t *));
-    }
+    grpp->U_esop = (libgrpp_potential_t **) reserve_place(grpp->U_esop, grpp->n_esop);
 
     grpp->U_esop[grpp->n_esop++] = pot;
 }
@@ -50,10 +60,8 @@ void libgrpp_grpp_add_spin_orbit_potential(libgrpp_grpp_t *grpp, libgrpp_potenti
 
 void libgrpp_grpp_add_outercore_potential(libgrpp_grpp_t *grpp, libgrpp_potential_t *pot, libgrpp_shell_t *oc_shell)
 {
-    if (grpp->n_oc_shells == 0) {
-        grpp->U_oc = (libgrpp_potential_t **) calloc(LIBGRPP_MAX_NUMBER_POTENTIALS, sizeof(libgrpp_potential_t *));
-        grpp->oc_shells = (libgrpp_shell_t **) calloc(LIBGRPP_MAX_NUMBER_POTENTIALS, sizeof(libgrpp_shell_t *));
-    }
+    grpp->U_oc = (libgrpp_potential_t **) reserve_place(grpp->U_oc, grpp->n_oc_shells);
+    grpp->oc_shells = (libgrpp_shell_t **) reserve_place(grpp->oc_shells, grpp->n_oc_shells);
 
     grpp->U_oc[grpp->n_oc_shells] = pot;
     grpp->oc_shells[grpp->n_oc_shells] = oc_shell;
-- 
2.43.0


From 5d6cf8432773b3441a9c1ed55dcbbdda67316877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:43 +0000
Subject: [PATCH 10/15] fix: data race on the initialized flag between
 libgrpp_is_initialized() and init/finalize

---
 libgrpp/init_finalize.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libgrpp/init_finalize.c b/libgrpp/init_finalize.c
index 36b2036..11312fa 100644
--- a/libgrpp/init_finalize.c
+++ b/libgrpp/init_finalize.c
@@ -24,6 +24,7 @@ void libgrpp_init()
             create_real_spherical_harmonic_coeffs_tables(40);
             pretabulate_bessel();
 
+#pragma omp atomic write seq_cst
             libgrpp_initialized = 1;
         }
     }
@@ -32,7 +33,13 @@ void libgrpp_init()
 
 int libgrpp_is_initialized()
 {
-    return libgrpp_initialized;
+    int initialized;
+
+    // other threads can be inside libgrpp_init() or libgrpp_finalize()
+#pragma omp atomic read seq_cst
+    initialized = libgrpp_initialized;
+
+    return initialized;
 }
 
 
@@ -44,6 +51,7 @@ void libgrpp_finalize()
 #pragma omp critical
     {
         if (libgrpp_initialized == 1) {
+#pragma omp atomic write seq_cst
             libgrpp_initialized = 0;
         }
     }
-- 
2.43.0


From 1157e8c8bddf65121ab1c044832239e63febb4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:13 +0000
Subject: [PATCH 11/15] fix: cache conflicts in the enlarged work array of
 Hermite integrals

---
 libgrpp/type1_mcmurchie_davidson.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libgrpp/type1_mcmurchie_davidson.c b/libgrpp/type1_mcmurchie_davidson.c
index 6696b53..99269d3 100644
--- a/libgrpp/type1_mcmurchie_davidson.c
+++ b/libgrpp/type1_mcmurchie_davidson.c
@@ -54,6 +54,11 @@
  */
 #define LMAX (LIBGRPP_MAX_BASIS_L + 2)
 
+/*
+ * orders of Hermite integrals: 0, ..., L_A + L_B (only one of the shells can have L = LIBGRPP_MAX_BASIS_L + 1)
+ */
+#define RMAX (2 * LIBGRPP_MAX_BASIS_L + 2)
+
 
 /*
  * temporary data for the McMurchie-Davidson algorithm
@@ -68,7 +73,7 @@ struct mmd_data {
     double R_QC_2;
     double boys[100];
     double E[3][LMAX][LMAX][2 * LMAX];
-    double R[2 * LMAX][2 * LMAX][2 * LMAX][2 * LMAX];
+    double R[RMAX][RMAX][RMAX][RMAX];
 };
 
 
-- 
2.43.0


From eae0642c7a4d22a4ac513ac04d52ce877798e23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:13 +0000
Subject: [PATCH 12/15] fix: nuclear attraction integrals with narrow gaussian
 products far from the nucleus

---
 libgrpp/radial_type1_integral.c | 45 ++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/libgrpp/radial_type1_integral.c b/libgrpp/radial_type1_integral.c
index 4e65883..7535be4 100644
--- a/libgrpp/radial_type1_integral.c
+++ b/libgrpp/radial_type1_integral.c
@@ -148,6 +148,32 @@ double radial_type1_integrand_fun(double r, int N, radial_type1_params_t *params
 }
 
 
+/**
+ * Returns node and weight of the quadrature: the Log3 grid, or, if the gaussian product
+ * is a peak isolated from the origin (which can be much narrower than the spacing of the
+ * Log3 grid at large distances), uniformly distributed points covering this peak only.
+ */
+static void radial_type1_grid_point(double xi, int nr, radial_type1_params_t *params, double *ri, double *wi)
+{
+    double p = params->alpha_A + params->alpha_B;
+    double r0 = params->k / (2.0 * p);
+
+    if (p * r0 * r0 > 36.0) {
+        double half_width = fmin(r0, 9.0 / sqrt(p));
+        *ri = r0 + half_width * (2.0 * xi - 1.0);
+        *wi = 2.0 * half_width * (*ri) * (*ri) / (nr + 1.0);
+        return;
+    }
+
+    const double R = 5.0;
+    const double R3 = R * R * R;
+    double xi3 = xi * xi * xi;
+    double ln_xi = log(1 - xi3);
+    *wi = 3 * R3 * xi * xi * ln_xi * ln_xi / ((1 - xi3) * (nr + 1.0));
+    *ri = -R * ln_xi;
+}
+
+
 radial_type1_grid_t *create_radial_type1_grid(int lambda_max, int n_max, radial_type1_params_t *params)
 {
     radial_type1_grid_t *grid = (radial_type1_grid_t *) calloc(1, sizeof(radial_type1_grid_t));
@@ -166,15 +192,10 @@ radial_type1_grid_t *create_radial_type1_grid(int lambda_max, int n_max, radial_
 
     // initial set of pre-calculated points
     int nr = grid->nr;
-    const double R = 5.0;
-    const double R3 = R * R * R;
 
     for (int i = 1; i <= nr; i++) {
-        double xi = i / (nr + 1.0);
-        double xi3 = xi * xi * xi;
-        double ln_xi = log(1 - xi3);
-        double wi = 3 * R3 * xi * xi * ln_xi * ln_xi / ((1 - xi3) * (nr + 1.0));
-        double ri = -R * ln_xi;
+        double ri, wi;
+        radial_type1_grid_point(i / (nr + 1.0), nr, params, &ri, &wi);
 
         grid->r[i - 1] = ri;
         grid->w[i - 1] = wi;
@@ -208,9 +229,6 @@ void delete_radial_type1_grid(radial_type1_grid_t *grid)
 
 void expand_radial_type1_grid(radial_type1_grid_t *grid, int nr)
 {
-    const double R = 5.0;
-    const double R3 = R * R * R;
-
     if (nr > MAX_GRID) {
         return;
     }
@@ -221,11 +239,8 @@ void expand_radial_type1_grid(radial_type1_grid_t *grid, int nr)
 
     int idx = grid->nr;
     for (int i = 1; i <= nr; i += 2) {
-        double xi = i / (nr + 1.0);
-        double xi3 = xi * xi * xi;
-        double ln_xi = log(1 - xi3);
-        double wi = 3 * R3 * xi * xi * ln_xi * ln_xi / ((1 - xi3) * (nr + 1.0));
-        double ri = -R * ln_xi;
+        double ri, wi;
+        radial_type1_grid_point(i / (nr + 1.0), nr, grid->params, &ri, &wi);
 
         grid->r[idx] = ri;
         grid->w[idx] = wi;
-- 
2.43.0


From c4454a7d653e5ea0ad9377afd104d9d304998260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:13 +0000
Subject: [PATCH 13/15] fix: false convergence of semilocal radial integrals
 with narrow peaks

---
 libgrpp/radial_type2_integral.c | 63 ++++++++++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 9 deletions(-)

diff --git a/libgrpp/radial_type2_integral.c b/libgrpp/radial_type2_integral.c
index 1befa4a..fea5f6c 100644
--- a/libgrpp/radial_type2_integral.c
+++ b/libgrpp/radial_type2_integral.c
@@ -31,6 +31,7 @@
 
 #define MIN_GRID 31
 #define MAX_GRID 10000
+#define MAX_GRID_NARROW_PEAKS 1000000
 
 
 typedef struct {
@@ -48,6 +49,8 @@ typedef struct {
  */
 typedef struct {
     int nr;
+    int nr_resolved; // the grid must be at least that large to be sure that no peak is missed
+    int nr_max;
     int n_max;
     int lambda1_max;
     int lambda2_max;
@@ -78,6 +81,8 @@ radial_type2_grid_t *create_radial_type2_grid(
     radial_type2_params_t *params
 );
 
+int radial_type2_grid_resolution(radial_type2_params_t *params);
+
 void delete_radial_type2_grid(radial_type2_grid_t *grid);
 
 double radial_type2_integrand_fun_contracted(
@@ -292,7 +297,7 @@ double calculate_radial_type2_integral(radial_type2_grid_t *grid, int n, int lam
     do {
         int idx = nr;
         nr = 2 * nr + 1;
-        if (nr > MAX_GRID) {
+        if (nr > grid->nr_max) {
             break;
         }
 
@@ -310,7 +315,7 @@ double calculate_radial_type2_integral(radial_type2_grid_t *grid, int n, int lam
             continue;
         }
 
-        *converged = fabs(sum - prev_sum) <= tolerance;
+        *converged = (nr >= grid->nr_resolved) && (fabs(sum - prev_sum) <= tolerance);
 
     } while (!(*converged));
 
@@ -331,17 +336,19 @@ radial_type2_grid_t *create_radial_type2_grid(
     radial_type2_grid_t *grid = (radial_type2_grid_t *) calloc(1, sizeof(radial_type2_grid_t));
 
     grid->nr = MIN_GRID;
+    grid->nr_resolved = radial_type2_grid_resolution(params);
+    grid->nr_max = int_max2(MAX_GRID, 4 * grid->nr_resolved);
     grid->n_max = n_max;
     grid->lambda1_max = lambda1_max;
     grid->lambda2_max = lambda2_max;
     grid->params = params;
 
-    grid->r = alloc_zeros_1d(MAX_GRID);
-    grid->w = alloc_zeros_1d(MAX_GRID);
-    grid->rpp_values = alloc_zeros_1d(MAX_GRID);
-    grid->F1 = alloc_zeros_2d(lambda1_max + 1, MAX_GRID);
-    grid->F2 = alloc_zeros_2d(lambda2_max + 1, MAX_GRID);
-    grid->r_N = alloc_zeros_2d(n_max + 1, MAX_GRID);
+    grid->r = alloc_zeros_1d(grid->nr_max);
+    grid->w = alloc_zeros_1d(grid->nr_max);
+    grid->rpp_values = alloc_zeros_1d(grid->nr_max);
+    grid->F1 = alloc_zeros_2d(lambda1_max + 1, grid->nr_max);
+    grid->F2 = alloc_zeros_2d(lambda2_max + 1, grid->nr_max);
+    grid->r_N = alloc_zeros_2d(n_max + 1, grid->nr_max);
 
     // vectors 'k': k = - 2 * alpha * |CA|
     double *bra_k = alloc_zeros_1d(params->bra->num_primitives);
@@ -384,6 +391,44 @@ radial_type2_grid_t *create_radial_type2_grid(
 }
 
 
+/**
+ * Returns the number of points of the Log3 grid at which its spacing becomes equal to the
+ * width of the narrowest peak of the integrand. A product of primitive gaussians and a
+ * primitive term of the RPP is a peak at r0; peaks which are vanishingly small are omitted.
+ */
+int radial_type2_grid_resolution(radial_type2_params_t *params)
+{
+    const double R = 5.0;
+    double n_points = MIN_GRID;
+
+    for (int i = 0; i < params->bra->num_primitives; i++) {
+        for (int j = 0; j < params->ket->num_primitives; j++) {
+            for (int k = 0; k < params->potential->num_primitives; k++) {
+                double alpha_A = params->bra->alpha[i];
+                double alpha_B = params->ket->alpha[j];
+                double eta = params->potential->alpha[k];
+                double p = alpha_A + alpha_B + eta;
+                double r0 = (alpha_A * params->CA + alpha_B * params->CB) / p;
+
+                double power = alpha_A * (r0 - params->CA) * (r0 - params->CA) +
+                               alpha_B * (r0 - params->CB) * (r0 - params->CB) +
+                               eta * r0 * r0;
+                if (power > 40.0) {
+                    continue;
+                }
+
+                // spacing = dr/dx / n_points
+                double x = cbrt(1.0 - exp(-r0 / R));
+                double dr_dx = 3.0 * R * x * x * exp(r0 / R);
+                n_points = fmax(n_points, dr_dx * sqrt(p));
+            }
+        }
+    }
+
+    return (int) fmin(n_points, MAX_GRID_NARROW_PEAKS / 4);
+}
+
+
 /**
  * constructs new radial grid points
  */
@@ -392,7 +437,7 @@ void expand_radial_type2_grid(radial_type2_grid_t *grid, int nr)
     const double R = 5.0;
     const double R3 = R * R * R;
 
-    if (nr > MAX_GRID) {
+    if (nr > grid->nr_max) {
         return;
     }
 
-- 
2.43.0


From dd14fdf2d14c6d9f0c5b6ec05e0abcd38a60e6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:21 +0000
Subject: [PATCH 14/15] fix: semi-local and spin-orbit integrals of steep
 shells displaced slightly from the RPP center

---
 libgrpp/spin_orbit_integrals.c | 2 +-
 libgrpp/type2_integrals.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libgrpp/spin_orbit_integrals.c b/libgrpp/spin_orbit_integrals.c
index e5f7b8a..424eb09 100644
--- a/libgrpp/spin_orbit_integrals.c
+++ b/libgrpp/spin_orbit_integrals.c
@@ -174,7 +174,7 @@ void libgrpp_spin_orbit_integrals(libgrpp_shell_t *shell_A, libgrpp_shell_t *she
                                     double factor = C_nA_a * C_lA_b * C_mA_c * C_nB_d * C_lB_e * C_mB_f *
                                                     pow_CA_x * pow_CA_y * pow_CA_z * pow_CB_x * pow_CB_y * pow_CB_z;
 
-                                    if (fabs(factor) < LIBGRPP_ZERO_THRESH) {
+                                    if (factor == 0.0) {
                                         continue;
                                     }
 
diff --git a/libgrpp/type2_integrals.c b/libgrpp/type2_integrals.c
index 58bff68..720843a 100644
--- a/libgrpp/type2_integrals.c
+++ b/libgrpp/type2_integrals.c
@@ -159,7 +159,7 @@ void libgrpp_type2_integrals(
                                     double factor = C_nA_a * C_lA_b * C_mA_c * C_nB_d * C_lB_e * C_mB_f *
                                                     pow_CA_x * pow_CA_y * pow_CA_z * pow_CB_x * pow_CB_y * pow_CB_z;
 
-                                    if (fabs(factor) < 1e-13) {
+                                    if (factor == 0.0) {
                                         continue;
                                     }
 
-- 
2.43.0


From 039e5695b58547bc20bf1c84ab06964c3be596b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:15 +0000
Subject: [PATCH 15/15] fix: terms of numerical nuclear attraction integrals
 dropped by absolute thresholds

---
 libgrpp/nuclear_attraction.c | 2 +-
 libgrpp/type1_integrals.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libgrpp/nuclear_attraction.c b/libgrpp/nuclear_attraction.c
index 04f2bec..6cb3472 100644
--- a/libgrpp/nuclear_attraction.c
+++ b/libgrpp/nuclear_attraction.c
@@ -98,7 +98,7 @@ void libgrpp_nuclear_attraction_integrals(
         for (int j = 0; j < shell_B->num_primitives; j++) {
             double coef_B_j = shell_B->coeffs[j];
 
-            if (fabs(coef_A_i * coef_B_j) < 1e-13) {
+            if (coef_A_i * coef_B_j == 0.0) {
                 continue;
             }
 
diff --git a/libgrpp/type1_integrals.c b/libgrpp/type1_integrals.c
index 50c1da0..02b0514 100644
--- a/libgrpp/type1_integrals.c
+++ b/libgrpp/type1_integrals.c
@@ -235,7 +235,7 @@ void evaluate_radially_local_potential_integral_primitive_gaussians(
                                     double factor = C_nA_a * C_lA_b * C_mA_c * C_nB_d * C_lB_e * C_mB_f *
                                                     pow_CA_x * pow_CA_y * pow_CA_z * pow_CB_x * pow_CB_y * pow_CB_z;
 
-                                    if (fabs(factor) < 1e-13) {
+                                    if (factor == 0.0) {
                                         continue;
                                     }
 
-- 
2.43.0

