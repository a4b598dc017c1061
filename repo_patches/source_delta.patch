From f69adea0480f957658d79c270a08a5273c40896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:07 +0000
Subject: [PATCH 01/14] fix: work arrays too small for the documented maximum
 angular momentum

Shells with L = LIBGRPP_MAX_BASIS_L (and the L + 1 functions arising from
their differentiation) overran the stack arrays of the overlap, kinetic,
momentum and McMurchie-Davidson codes.
---
 libgrpp/kinetic.c                  | 4 ++--
 libgrpp/momentum.c                 | 4 ++--
 libgrpp/overlap.c                  | 2 +-
 libgrpp/type1_mcmurchie_davidson.c | 8 ++++++--
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/libgrpp/kinetic.c b/libgrpp/kinetic.c
index 2c6fca3..bce3f7d 100644
--- a/libgrpp/kinetic.c
+++ b/libgrpp/kinetic.c
@@ -83,7 +83,7 @@ void kinetic_energy_integrals_shell_pair_obara_saika(
     double *B = shell_B->origin;
 
     // calculate S_ij
-    double S[3][LIBGRPP_MAX_BASIS_L + 2][LIBGRPP_MAX_BASIS_L + 2];
+    double S[3][LIBGRPP_MAX_BASIS_L + 3][LIBGRPP_MAX_BASIS_L + 3];
 
     for (int coord = 0; coord < 3; coord++) {
         double P = (alpha_A * A[coord] + alpha_B * B[coord]) / p;
@@ -124,7 +124,7 @@ void kinetic_energy_integrals_shell_pair_obara_saika(
 
     // calculate D^2_ij
 
-    double D2[3][LIBGRPP_MAX_BASIS_L][LIBGRPP_MAX_BASIS_L];
+    double D2[3][LIBGRPP_MAX_BASIS_L + 1][LIBGRPP_MAX_BASIS_L + 1];
 
     for (int coord = 0; coord < 3; coord++) {
         for (int i = 0; i <= L_A; i++) {
diff --git a/libgrpp/momentum.c b/libgrpp/momentum.c
index 849457c..0a30146 100644
--- a/libgrpp/momentum.c
+++ b/libgrpp/momentum.c
@@ -105,7 +105,7 @@ void momentum_integrals_shell_pair_obara_saika(
     double *B = shell_B->origin;
 
     // calculate S_ij
-    double S[3][LIBGRPP_MAX_BASIS_L + 1][LIBGRPP_MAX_BASIS_L + 1];
+    double S[3][LIBGRPP_MAX_BASIS_L + 2][LIBGRPP_MAX_BASIS_L + 2];
 
     for (int coord = 0; coord < 3; coord++) {
         double P = (alpha_A * A[coord] + alpha_B * B[coord]) / p;
@@ -146,7 +146,7 @@ void momentum_integrals_shell_pair_obara_saika(
 
     // calculate D^1_ij
 
-    double D1[3][LIBGRPP_MAX_BASIS_L][LIBGRPP_MAX_BASIS_L];
+    double D1[3][LIBGRPP_MAX_BASIS_L + 1][LIBGRPP_MAX_BASIS_L + 1];
 
     for (int coord = 0; coord < 3; coord++) {
         for (int i = 0; i <= L_A; i++) {
diff --git a/libgrpp/overlap.c b/libgrpp/overlap.c
index fed9620..8a53a83 100644
--- a/libgrpp/overlap.c
+++ b/libgrpp/overlap.c
@@ -83,7 +83,7 @@ void overlap_integrals_shell_pair_obara_saika(
     double *A = shell_A->origin;
     double *B = shell_B->origin;
 
-    double S[3][LIBGRPP_MAX_BASIS_L][LIBGRPP_MAX_BASIS_L];
+    double S[3][LIBGRPP_MAX_BASIS_L + 2][LIBGRPP_MAX_BASIS_L + 2];
 
     for (int coord = 0; coord < 3; coord++) {
         double P = (alpha_A * A[coord] + alpha_B * B[coord]) / p;
diff --git a/libgrpp/type1_mcmurchie_davidson.c b/libgrpp/type1_mcmurchie_davidson.c
index a658bb0..b736d0f 100644
--- a/libgrpp/type1_mcmurchie_davidson.c
+++ b/libgrpp/type1_mcmurchie_davidson.c
@@ -48,7 +48,11 @@
 #include "norm_gaussian.h"
 #include "utils.h"
 
-#define LMAX LIBGRPP_MAX_BASIS_L
+/*
+ * angular momenta run up to (LIBGRPP_MAX_BASIS_L + 1):
+ * differentiation of basis functions raises L by one
+ */
+#define LMAX (LIBGRPP_MAX_BASIS_L + 1)
 
 
 /*
@@ -63,7 +67,7 @@ struct mmd_data {
     double K_abc[3];
     double R_QC_2;
     double boys[100];
-    double E[3][LMAX][LMAX][2 * LMAX];
+    double E[3][LMAX + 1][LMAX + 1][2 * LMAX];
     double R[2 * LMAX][2 * LMAX][2 * LMAX][2 * LMAX];
 };
 
-- 
2.43.0


From d5d2998adeab9a16e611c358284f5b83f250dcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:07 +0000
Subject: [PATCH 02/14] fix: double_factorial() aborted for arguments above 30

The recursion for larger arguments was already there, but unreachable. Such
arguments occur in angular integrals for documented angular momenta.
---
 libgrpp/factorial.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgrpp/factorial.c b/libgrpp/factorial.c
index 1e1fae9..444dc88 100644
--- a/libgrpp/factorial.c
+++ b/libgrpp/factorial.c
@@ -104,7 +104,7 @@ static uint64_t pretabulated_double_factorials[] = {
 
 double double_factorial(int n)
 {
-    assert(n >= -1 && n <= 30);
+    assert(n >= -1);
     if (n == -1) {
         return 1;
     } else if (n <= 30) {
-- 
2.43.0


From 9cda65355256311512130d815e62019b9a85ff85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:01 +0000
Subject: [PATCH 03/14] fix: outercore integrals overwrote the centres of the
 caller's outercore shells

The routines moved the (possibly shared) shell objects to the pseudopotential
centre, which modified input data and was a data race when one pseudopotential
was used for several centres concurrently. Bind local copies instead.
---
 libgrpp/outercore_integrals.c | 37 +++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/libgrpp/outercore_integrals.c b/libgrpp/outercore_integrals.c
index 99b8073..e11f812 100644
--- a/libgrpp/outercore_integrals.c
+++ b/libgrpp/outercore_integrals.c
@@ -103,13 +103,6 @@ void libgrpp_outercore_potential_integrals(
     memset(esop_y, 0, size_A * size_B * sizeof(double));
     memset(esop_z, 0, size_A * size_B * sizeof(double));
 
-    // bind outercore shells of the GRPP to the RPP center
-    for (int ioc = 0; ioc < num_oc_shells; ioc++) {
-        oc_shells[ioc]->origin[0] = rpp_origin[0];
-        oc_shells[ioc]->origin[1] = rpp_origin[1];
-        oc_shells[ioc]->origin[2] = rpp_origin[2];
-    }
-
     // 1. the U * |nlj><nlj| + |nlj><nlj| * U part
     for (int ioc = 0; ioc < num_oc_shells; ioc++) {
         libgrpp_potential_t *pot = oc_potentials[ioc];
@@ -157,11 +150,15 @@ void libgrpp_outercore_potential_integrals_part_1(
     int size_nlj = libgrpp_get_shell_size(oc_shell);
 
     /*
-     * foolproof: bind outercore shells to the ECP center
+     * foolproof: bind outercore shells to the ECP center.
+     * a local copy of the descriptor is used: the caller's object can be shared
+     * between pseudopotentials (and threads) and must stay unchanged
      */
-    oc_shell->origin[0] = C[0];
-    oc_shell->origin[1] = C[1];
-    oc_shell->origin[2] = C[2];
+    libgrpp_shell_t oc_shell_at_C = *oc_shell;
+    oc_shell_at_C.origin[0] = C[0];
+    oc_shell_at_C.origin[1] = C[1];
+    oc_shell_at_C.origin[2] = C[2];
+    oc_shell = &oc_shell_at_C;
 
     /*
      * Transformation coefficients: Cartesian -> Real spherical
@@ -293,13 +290,19 @@ void libgrpp_outercore_potential_integrals_part_2(
 
     /*
      * foolproof: bind outercore shells to the ECP center
+     * (local copies of the descriptors are used, see above)
      */
-    oc_shell_1->origin[0] = C[0];
-    oc_shell_1->origin[1] = C[1];
-    oc_shell_1->origin[2] = C[2];
-    oc_shell_2->origin[0] = C[0];
-    oc_shell_2->origin[1] = C[1];
-    oc_shell_2->origin[2] = C[2];
+    libgrpp_shell_t oc_shell_1_at_C = *oc_shell_1;
+    oc_shell_1_at_C.origin[0] = C[0];
+    oc_shell_1_at_C.origin[1] = C[1];
+    oc_shell_1_at_C.origin[2] = C[2];
+    oc_shell_1 = &oc_shell_1_at_C;
+
+    libgrpp_shell_t oc_shell_2_at_C = *oc_shell_2;
+    oc_shell_2_at_C.origin[0] = C[0];
+    oc_shell_2_at_C.origin[1] = C[1];
+    oc_shell_2_at_C.origin[2] = C[2];
+    oc_shell_2 = &oc_shell_2_at_C;
 
     /*
      * just to be consistent with the MOLGEP code by A. Titov, N. Mosyagin, A. Petrov:
-- 
2.43.0


From bd29454cbcfb37be39e60fc3d9f227bd884f9339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:40 +0000
Subject: [PATCH 04/14] fix: overlap gradients modified the caller's shell and
 read out of bounds

The cartesian list of the (possibly shared) left shell was changed temporarily,
and for components with a zero power the lowered index was looked up outside
of the L-1 block. Use a local copy and skip the vanishing term.
---
 libgrpp/overlap_gradient.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libgrpp/overlap_gradient.c b/libgrpp/overlap_gradient.c
index de99af4..fbcbea3 100644
--- a/libgrpp/overlap_gradient.c
+++ b/libgrpp/overlap_gradient.c
@@ -115,14 +115,17 @@ void overlap_gradient_diff_bra_contribution(
         for (int i = 0; i < shell_A->cart_size; i++) {
             for (int j = 0; j < shell_B->cart_size; j++) {
 
-                int *bra_nlm = shell_A->cart_list + 3 * i;
+                int bra_nlm[3];
+                bra_nlm[0] = shell_A->cart_list[3 * i + 0];
+                bra_nlm[1] = shell_A->cart_list[3 * i + 1];
+                bra_nlm[2] = shell_A->cart_list[3 * i + 2];
                 int *ket_nlm = shell_B->cart_list + 3 * j;
                 int index = i * shell_B->cart_size + j;
 
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (shell_A->L > 0) {
+                if (bra_nlm[icoord] > 0) {
                     bra_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
                     int ket_index = nlm_to_linear(ket_nlm);
-- 
2.43.0


From 6bc871709795457d3af25585d9d6e7e905e8b32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:40 +0000
Subject: [PATCH 05/14] fix: pseudopotential gradients read out of bounds

For components with a zero power the lowered index was looked up outside of
the L-1 block: the value read was multiplied by zero, which is still an invalid
access and yields NaN for unlucky garbage. Skip the vanishing term.
---
 libgrpp/grpp_integrals_gradient.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libgrpp/grpp_integrals_gradient.c b/libgrpp/grpp_integrals_gradient.c
index 5e56128..f342a9f 100644
--- a/libgrpp/grpp_integrals_gradient.c
+++ b/libgrpp/grpp_integrals_gradient.c
@@ -456,7 +456,7 @@ void grpp_gradient_diff_bra_contribution(
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (shell_A->L > 0) {
+                if (bra_nlm[icoord] > 0) {
                     bra_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
                     int ket_index = nlm_to_linear(ket_nlm);
@@ -650,7 +650,7 @@ void grpp_gradient_diff_ket_contribution(
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (shell_B->L > 0) {
+                if (ket_nlm[icoord] > 0) {
                     ket_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
                     int ket_index = nlm_to_linear(ket_nlm);
@@ -852,7 +852,7 @@ void grpp_gradient_contribution(
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (cart_size_down > 0) {
+                if (diff_nlm[icoord] > 0) {
                     diff_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
                     int ket_index = nlm_to_linear(ket_nlm);
-- 
2.43.0


From 9635085806c9ba393b30e77afea02c27cca33b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:40 +0000
Subject: [PATCH 06/14] fix: nuclear model wrappers passed the charge as the
 first model parameter

libgrpp_nuclear_attraction_integrals() takes the charge separately and expects
the model parameters from index 0 on.
---
 libgrpp/nuclear_attraction.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/libgrpp/nuclear_attraction.c b/libgrpp/nuclear_attraction.c
index a2fb118..04f2bec 100644
--- a/libgrpp/nuclear_attraction.c
+++ b/libgrpp/nuclear_attraction.c
@@ -196,8 +196,7 @@ void libgrpp_nuclear_attraction_integrals_charged_ball(
     double *charge_origin, int charge, double r_rms, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = r_rms;
+    params[0] = r_rms;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL, params, coulomb_matrix);
@@ -216,8 +215,7 @@ void libgrpp_nuclear_attraction_integrals_gaussian_model(
     double *charge_origin, int charge, double r_rms, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = r_rms;
+    params[0] = r_rms;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_GAUSSIAN, params, coulomb_matrix);
@@ -236,9 +234,8 @@ void libgrpp_nuclear_attraction_integrals_fermi_model(
     double *charge_origin, int charge, double fermi_param_c, double fermi_param_a, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = fermi_param_c;
-    params[2] = fermi_param_a;
+    params[0] = fermi_param_c;
+    params[1] = fermi_param_a;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_FERMI, params, coulomb_matrix);
@@ -258,10 +255,9 @@ void libgrpp_nuclear_attraction_integrals_fermi_bubble_model(
     double *charge_origin, int charge, double param_c, double param_a, double param_k, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = param_c;
-    params[2] = param_a;
-    params[3] = param_k;
+    params[0] = param_c;
+    params[1] = param_a;
+    params[2] = param_k;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_FERMI_BUBBLE, params, coulomb_matrix);
-- 
2.43.0


From 435495b43b855d2a732fd40bc8b015de3dd9b1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:01 +0000
Subject: [PATCH 07/14] fix: Boys function was inaccurate for x > 30 and high
 orders

The asymptotic formula neglects terms of order exp(-x) relative to the
incomplete gamma function, which is 1% for n = 20 just above x = 30.
Use the closed form of F_0 and the (stable) upward recursion.
---
 libgrpp/specfunc_boys.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libgrpp/specfunc_boys.c b/libgrpp/specfunc_boys.c
index ca95ef7..549a344 100644
--- a/libgrpp/specfunc_boys.c
+++ b/libgrpp/specfunc_boys.c
@@ -9,7 +9,6 @@
 #include <stdio.h>
 #include <string.h>
 
-#include "factorial.h"
 #include "specfunc.h"
 
 extern const double boys_table[301][40];
@@ -41,8 +40,16 @@ double boys_function(int n, double x)
                + boys_values[n + 6] * dx6 / 720.0;
     }
     else {
-        // asymptotic behaviour
-        return double_factorial(2 * n - 1) / pow(2.0, n + 1) * sqrt(M_PI / pow(x, 2 * n + 1));
+        // F_0 is known in closed form, upward recursion is stable in this region.
+        // (the leading asymptotic term alone is not accurate enough for large n)
+        double exp_x = exp(-x);
+        double f = 0.5 * sqrt(M_PI / x) * erf(sqrt(x));
+
+        for (int k = 0; k < n; k++) {
+            f = ((2 * k + 1) * f - exp_x) / (2.0 * x);
+        }
+
+        return f;
     }
 }
 
-- 
2.43.0


From b042dd54bbfa2d5f8aeeb157f78d14121e4b9496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:03 +0000
Subject: [PATCH 08/14] fix: integrals over the 1/r^2 operator lost all
 accuracy for high L

The recursion for the 1/r^2 auxiliary integrals subtracted quantities of order
(2q)^n from each other: 1e-9 errors for d, 1e-7 for f functions and meaningless
numbers from g on when the product Gaussian is far from the centre. Use the
derivatives of G_0 themselves, all of them positive, in the same recursion
as for the 1/r operator.
---
 libgrpp/specfunc.h                 |  2 +-
 libgrpp/specfunc_gfun.c            | 83 +++++++++++-------------------
 libgrpp/type1_mcmurchie_davidson.c | 67 ++----------------------
 3 files changed, 35 insertions(+), 117 deletions(-)

diff --git a/libgrpp/specfunc.h b/libgrpp/specfunc.h
index cfea6fb..db16a3b 100644
--- a/libgrpp/specfunc.h
+++ b/libgrpp/specfunc.h
@@ -15,7 +15,7 @@
 
 double modified_bessel_scaled(int n, double x);
 
-void gfun_values(double x, int nmax, double *g);
+void gfun_derivative_values(double x, int nmax, double *g);
 
 double boys_function(int n, double x);
 
diff --git a/libgrpp/specfunc_gfun.c b/libgrpp/specfunc_gfun.c
index 6ddedd6..9a7ebbb 100644
--- a/libgrpp/specfunc_gfun.c
+++ b/libgrpp/specfunc_gfun.c
@@ -6,8 +6,12 @@
  */
 
 /*
- * Implementation of the Gn(x) auxiliary function.
- * This function is required to calculate integrals over the 1/r^2 operator.
+ * Implementation of the auxiliary function
+ *
+ *   G_0(x) = int_0^1 exp(-x (1 - u^2)) du
+ *
+ * and of its derivatives. These functions are required to calculate integrals
+ * over the 1/r^2 operator.
  *
  * More on the Gn(x) function evaluation:
  * (1) J. 0. Jensen, A. H. Cameri, C. P. Vlahacos, D. Zeroka, H. F. Hameka, C. N. Merrow,
@@ -24,71 +28,42 @@
 
 #include "specfunc.h"
 #include <math.h>
-#include <string.h>
-#include <stdio.h>
-
-#include "factorial.h"
-
-
-static double gfun_taylor(int n, double x);
 
 
 /**
- * Calculates values of the Gn(x) auxiliary function for n = 0, ..., nmax
- * and stores them into the g[] array.
+ * Calculates values of the function
+ *
+ *   (-d/dx)^n G_0(x) = int_0^1 (1 - u^2)^n exp(-x (1 - u^2)) du
+ *
+ * for n = 0, ..., nmax and stores them into the g[] array.
+ *
+ * G_0(x) is expressed via the Dawson's integral. Functions with n > 0 are obtained
+ * from the ratios of functions of subsequent orders, which are calculated using
+ * the (stable) downward recursion.
  */
-void gfun_values(double x, int nmax, double *g)
+void gfun_derivative_values(double x, int nmax, double *g)
 {
-    memset(g, 0, (nmax + 1) * sizeof(double));
+    const int n_extra = 100;
+    double ratio = 1.0;
 
-    if (x <= 12.0) {
-        /*
-         * downward recursion
-         */
-        g[nmax] = gfun_taylor(nmax, x);
+    for (int n = nmax + n_extra; n > 0; n--) {
+        // ratio of the functions of orders n and (n - 1)
+        ratio = 2.0 * n / (2.0 * n + 1.0 + 2.0 * x * (1.0 - ratio));
 
-        for (int n = nmax; n > 0; n--) {
-            g[n - 1] = (1.0 - 2.0 * x * g[n]) / (2.0 * n - 1.0);
+        if (n <= nmax) {
+            g[n] = ratio;
         }
     }
+
+    if (x < 1e-20) {
+        g[0] = 1.0;
+    }
     else {
-        /*
-         * upward recursion
-         */
         double sqrt_x = sqrt(x);
         g[0] = Dawsons_Integral(sqrt_x) / sqrt_x;
-
-        for (int n = 0; n < nmax; n++) {
-            g[n + 1] = (1.0 - (2 * n + 1) * g[n]) / (2.0 * x);
-        }
     }
-}
-
-
-/**
- * Calculates value of the Gn(x) auxiliary function using the Taylor expansion.
- * The Taylor series converges for x <= 30.
- */
-static double gfun_taylor(int n, double x)
-{
-    const double thresh = 1e-15;
-    double sum = 0.0;
 
-    for (int k = 0; k < 100; k++) {
-
-        double y_exp = exp(-x);
-        double y_pow = pow(x, k);
-        double y_fac = factorial(k);
-        double y_nk1 = 2.0 * n + 2.0 * k + 1.0;
-
-        double contrib = y_exp * y_pow / y_fac / y_nk1;
-        sum += contrib;
-
-        if (fabs(contrib) < thresh) {
-            break;
-        }
+    for (int n = 1; n <= nmax; n++) {
+        g[n] *= g[n - 1];
     }
-
-    return sum;
 }
-
diff --git a/libgrpp/type1_mcmurchie_davidson.c b/libgrpp/type1_mcmurchie_davidson.c
index b736d0f..12fa366 100644
--- a/libgrpp/type1_mcmurchie_davidson.c
+++ b/libgrpp/type1_mcmurchie_davidson.c
@@ -101,8 +101,6 @@ void setup_E_array(struct mmd_data *data, int L_A, int L_B);
 
 void setup_R_array(struct mmd_data *data, int L_A, int L_B);
 
-void setup_G_array(struct mmd_data *data, int L_A, int L_B);
-
 
 /**
  * General interface for the McMurchie-Davidson algorithm for integrals
@@ -217,7 +215,7 @@ double evaluate_rpp_type1_mmd_n0_primitive_shell_pair(
     int L_A = shell_A->L;
     int L_B = shell_B->L;
     int Nmax = L_A + L_B;
-    gfun_values(q * data.R_QC_2, Nmax, data.boys);
+    gfun_derivative_values(q * data.R_QC_2, Nmax, data.boys);
 
     /*
      * setup E array
@@ -227,7 +225,7 @@ double evaluate_rpp_type1_mmd_n0_primitive_shell_pair(
     /*
      * setup R array
      */
-    setup_G_array(&data, L_A, L_B);
+    setup_R_array(&data, L_A, L_B);
 
     /*
      * loop over cartesian functions inside the shells
@@ -456,7 +454,9 @@ double evaluate_rpp_type1_mmd_n2_primitive_shell_pair(
 
 
 /**
- * Calculation of the R_{tuv}^N auxiliary integrals for the 1/r operator
+ * Calculation of the R_{tuv}^N auxiliary integrals for the 1/r and 1/r^2 operators
+ * (data->boys contains the values of the auxiliary function of the operator and of
+ * its derivatives taken with the sign (-1)^n: either Boys or G functions)
  */
 void setup_R_array(struct mmd_data *data, int L_A, int L_B)
 {
@@ -510,63 +510,6 @@ void setup_R_array(struct mmd_data *data, int L_A, int L_B)
 }
 
 
-/**
- * Calculation of the R_{tuv}^N auxiliary integrals for the 1/r^2 operator
- */
-void setup_G_array(struct mmd_data *data, int L_A, int L_B)
-{
-    double q = data->q;
-    double X_QC = data->Q[0] - data->C[0];
-    double Y_QC = data->Q[1] - data->C[1];
-    double Z_QC = data->Q[2] - data->C[2];
-
-    int nmax = L_A + L_B;
-    int L_SUM = L_A + L_B;
-
-    for (int t = 0; t <= L_SUM; t++) {
-        for (int u = 0; u <= L_SUM; u++) {
-            for (int v = 0; v <= L_SUM; v++) {
-
-                if (t + u + v > L_SUM) {
-                    continue;
-                }
-
-                for (int n = 0; n <= nmax - (t + u + v); n++) {
-
-                    double val = 0.0;
-
-                    if (t + u + v == 0) {
-                        val = pow(2.0 * q, n) * data->boys[n];
-                    }
-                    else if (t + u == 0) {
-                        if (v > 1) {
-                            val += (v - 1) * (data->R[t][u][v - 2][n + 1] - 2.0 * q * data->R[t][u][v - 2][n]);
-                        }
-                        val += Z_QC * (data->R[t][u][v - 1][n + 1] - 2.0 * q * data->R[t][u][v - 1][n]);
-                    }
-                    else if (t == 0) {
-                        if (u > 1) {
-                            val += (u - 1) * (data->R[t][u - 2][v][n + 1] - 2.0 * q * data->R[t][u - 2][v][n]);
-                        }
-                        val += Y_QC * (data->R[t][u - 1][v][n + 1] - 2.0 * q * data->R[t][u - 1][v][n]);
-                    }
-                    else {
-                        if (t > 1) {
-                            val += (t - 1) * (data->R[t - 2][u][v][n + 1] - 2.0 * q * data->R[t - 2][u][v][n]);
-                        }
-                        val += X_QC * (data->R[t - 1][u][v][n + 1] - 2.0 * q * data->R[t - 1][u][v][n]);
-                    }
-
-                    data->R[t][u][v][n] = val;
-
-                }
-
-            }
-        }
-    }
-}
-
-
 /**
  * Calculates E^{ij}_t coefficients in the MMD scheme.
  */
-- 
2.43.0


From d00b70f6b46ed25b3d2e9310c85daad3225da632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:29 +0000
Subject: [PATCH 09/14] fix: pseudopotential objects overflowed when given more
 than 100 parts

The arrays had a fixed size of 100 entries and were written past their end.
---
 libgrpp/grpp.c | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/libgrpp/grpp.c b/libgrpp/grpp.c
index 75b10f8..c955446 100644
--- a/libgrpp/grpp.c
+++ b/libgrpp/grpp.c
@@ -9,7 +9,21 @@
 
 #include <stdlib.h>
 
-#define LIBGRPP_MAX_NUMBER_POTENTIALS 100
+#define LIBGRPP_POTENTIALS_CHUNK_SIZE 100
+
+
+/**
+ * prepares the array with 'n' used entries for one more entry:
+ * memory is allocated in chunks.
+ */
+static void *reserve_entry(void *array, int n)
+{
+    if (n % LIBGRPP_POTENTIALS_CHUNK_SIZE == 0) {
+        array = realloc(array, (n + LIBGRPP_POTENTIALS_CHUNK_SIZE) * sizeof(void *));
+    }
+
+    return array;
+}
 
 
 libgrpp_grpp_t *libgrpp_new_grpp()
@@ -30,31 +44,22 @@ void libgrpp_grpp_set_local_potential(libgrpp_grpp_t *grpp, libgrpp_potential_t
 
 void libgrpp_grpp_add_averaged_potential(libgrpp_grpp_t *grpp, libgrpp_potential_t *pot)
 {
-    if (grpp->n_arep == 0) {
-        grpp->U_arep = (libgrpp_potential_t **) calloc(LIBGRPP_MAX_NUMBER_POTENTIALS, sizeof(libgrpp_potential_t *));
-    }
-
+    grpp->U_arep = (libgrpp_potential_t **) reserve_entry(grpp->U_arep, grpp->n_arep);
     grpp->U_arep[grpp->n_arep++] = pot;
 }
 
 
 void libgrpp_grpp_add_spin_orbit_potential(libgrpp_grpp_t *grpp, libgrpp_potential_t *pot)
 {
-    if (grpp->n_esop == 0) {
-        grpp->U_esop = (libgrpp_potential_t **) calloc(LIBGRPP_MAX_NUMBER_POTENTIALS, sizeof(libgrpp_potential_t *));
-    }
-
+    grpp->U_esop = (libgrpp_potential_t **) reserve_entry(grpp->U_esop, grpp->n_esop);
     grpp->U_esop[grpp->n_esop++] = pot;
 }
 
 
 void libgrpp_grpp_add_outercore_potential(libgrpp_grpp_t *grpp, libgrpp_potential_t *pot, libgrpp_shell_t *oc_shell)
 {
-    if (grpp->n_oc_shells == 0) {
-        grpp->U_oc = (libgrpp_potential_t **) calloc(LIBGRPP_MAX_NUMBER_POTENTIALS, sizeof(libgrpp_potential_t *));
-        grpp->oc_shells = (libgrpp_shell_t **) calloc(LIBGRPP_MAX_NUMBER_POTENTIALS, sizeof(libgrpp_shell_t *));
-    }
-
+    grpp->U_oc = (libgrpp_potential_t **) reserve_entry(grpp->U_oc, grpp->n_oc_shells);
+    grpp->oc_shells = (libgrpp_shell_t **) reserve_entry(grpp->oc_shells, grpp->n_oc_shells);
     grpp->U_oc[grpp->n_oc_shells] = pot;
     grpp->oc_shells[grpp->n_oc_shells] = oc_shell;
     grpp->n_oc_shells++;
-- 
2.43.0


From e8f6072a57f3b37122e51e43ceb63c0f47d62e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:30 +0000
Subject: [PATCH 10/14] fix: deep copy of a shell did not keep its order of
 cartesian components

---
 libgrpp/shell.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libgrpp/shell.c b/libgrpp/shell.c
index 3024fd5..38d5717 100644
--- a/libgrpp/shell.c
+++ b/libgrpp/shell.c
@@ -56,6 +56,12 @@ libgrpp_shell_t *libgrpp_shell_deep_copy(libgrpp_shell_t *src_shell)
         src_shell->alpha
     );
 
+    // the order of cartesian components is a property of the shell:
+    // the current cartesian generator can differ from the one used for the source
+    for (int i = 0; i < 3 * src_shell->cart_size; i++) {
+        new_shell->cart_list[i] = src_shell->cart_list[i];
+    }
+
     return new_shell;
 }
 
-- 
2.43.0


From 13db633e1aafe3e2a43399b5ec775a4cb82b6238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:43 +0000
Subject: [PATCH 11/14] fix: semilocal integrals were inaccurate for nearly
 coincident centres

The one-center formula was used for displacements up to 1e-7 bohr, with errors
of the order of (displacement * exponent), and jumped at this distance.
Restrict it to the centres coinciding to 1e-12 bohr, as points_are_equal() does.
---
 libgrpp/radial_type2_integral.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgrpp/radial_type2_integral.c b/libgrpp/radial_type2_integral.c
index 1befa4a..32cb00c 100644
--- a/libgrpp/radial_type2_integral.c
+++ b/libgrpp/radial_type2_integral.c
@@ -123,7 +123,7 @@ radial_type2_table_t *tabulate_radial_type2_integrals(
     /*
      * the special case of one-center RPP integrals
      */
-    if (CA_2 < 1e-14 && CB_2 < 1e-14) {
+    if (CA_2 < 1e-24 && CB_2 < 1e-24) {
 
         for (int i = 0; i < bra->num_primitives; i++) {
             double alpha_A = bra->alpha[i];
-- 
2.43.0


From 91b154bb877f127387bb66869c241cf3e147d729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:06 +0000
Subject: [PATCH 12/14] fix: radial tolerance setting was ignored by the
 semilocal integrals

libgrpp_set_radial_tolerance() had no effect on type 2 and spin-orbit radial
integrals: the default value was hard-coded.
---
 libgrpp/radial_type2_integral.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libgrpp/radial_type2_integral.c b/libgrpp/radial_type2_integral.c
index 32cb00c..3fefdfd 100644
--- a/libgrpp/radial_type2_integral.c
+++ b/libgrpp/radial_type2_integral.c
@@ -113,6 +113,7 @@ radial_type2_table_t *tabulate_radial_type2_integrals(
      * create empty table containing pre-tabulated radial type 2 integrals
      */
     radial_type2_table_t *table;
+    double const tolerance = libgrpp_params.radial_tolerance;
     table = (radial_type2_table_t *) calloc(1, sizeof(radial_type2_table_t));
     table->lambda1_max = lambda1_max;
     table->lambda2_max = lambda2_max;
@@ -185,7 +186,7 @@ radial_type2_table_t *tabulate_radial_type2_integrals(
             for (int n = 0; n <= n_max; n++) {
 
                 int converged;
-                double Q = calculate_radial_type2_integral(grid, n, lambda_1, lambda_2, 1e-16, &converged);
+                double Q = calculate_radial_type2_integral(grid, n, lambda_1, lambda_2, tolerance, &converged);
 
                 int dim1 = lambda1_max + 1;
                 int dim2 = lambda2_max + 1;
-- 
2.43.0


From 4f6643b6a4873de4c6640e09a46cf8b20b336a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:24 +0000
Subject: [PATCH 13/14] fix: semilocal integrals lost accuracy for tight shells
 near the potential centre

Terms of the expansion about the potential centre were dropped when the
binomial factor alone was below an absolute threshold (1e-13), although the
radial integral it multiplies grows with the normalisation factors of the
Gaussians and could be as large as 1e13. The product is screened now.
---
 libgrpp/spin_orbit_integrals.c | 4 ++--
 libgrpp/type1_integrals.c      | 4 ++--
 libgrpp/type2_integrals.c      | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libgrpp/spin_orbit_integrals.c b/libgrpp/spin_orbit_integrals.c
index e5f7b8a..2c06d60 100644
--- a/libgrpp/spin_orbit_integrals.c
+++ b/libgrpp/spin_orbit_integrals.c
@@ -174,7 +174,7 @@ void libgrpp_spin_orbit_integrals(libgrpp_shell_t *shell_A, libgrpp_shell_t *she
                                     double factor = C_nA_a * C_lA_b * C_mA_c * C_nB_d * C_lB_e * C_mB_f *
                                                     pow_CA_x * pow_CA_y * pow_CA_z * pow_CB_x * pow_CB_y * pow_CB_z;
 
-                                    if (fabs(factor) < LIBGRPP_ZERO_THRESH) {
+                                    if (factor == 0.0) {
                                         continue;
                                     }
 
@@ -202,7 +202,7 @@ void libgrpp_spin_orbit_integrals(libgrpp_shell_t *shell_A, libgrpp_shell_t *she
                                             }
 
                                             double QN = get_radial_type2_integral(radial_table, lambda_1, lambda_2, N);
-                                            if (fabs(QN) < LIBGRPP_ZERO_THRESH) {
+                                            if (fabs(QN) < LIBGRPP_ZERO_THRESH || fabs(factor * QN) < 1e-16) {
                                                 continue;
                                             }
 
diff --git a/libgrpp/type1_integrals.c b/libgrpp/type1_integrals.c
index 50c1da0..877e2ac 100644
--- a/libgrpp/type1_integrals.c
+++ b/libgrpp/type1_integrals.c
@@ -235,7 +235,7 @@ void evaluate_radially_local_potential_integral_primitive_gaussians(
                                     double factor = C_nA_a * C_lA_b * C_mA_c * C_nB_d * C_lB_e * C_mB_f *
                                                     pow_CA_x * pow_CA_y * pow_CA_z * pow_CB_x * pow_CB_y * pow_CB_z;
 
-                                    if (fabs(factor) < 1e-13) {
+                                    if (factor == 0.0) {
                                         continue;
                                     }
 
@@ -244,7 +244,7 @@ void evaluate_radially_local_potential_integral_primitive_gaussians(
                                     for (int lambda = 0; lambda <= lambda_max; lambda++) {
 
                                         double Q = get_radial_type1_integral(radial_table, lambda, N);
-                                        if (fabs(Q) < 1e-16) {
+                                        if (fabs(Q) < 1e-16 || fabs(factor * Q) < 1e-16) {
                                             continue;
                                         }
 
diff --git a/libgrpp/type2_integrals.c b/libgrpp/type2_integrals.c
index 58bff68..6f73d64 100644
--- a/libgrpp/type2_integrals.c
+++ b/libgrpp/type2_integrals.c
@@ -159,7 +159,7 @@ void libgrpp_type2_integrals(
                                     double factor = C_nA_a * C_lA_b * C_mA_c * C_nB_d * C_lB_e * C_mB_f *
                                                     pow_CA_x * pow_CA_y * pow_CA_z * pow_CB_x * pow_CB_y * pow_CB_z;
 
-                                    if (fabs(factor) < 1e-13) {
+                                    if (factor == 0.0) {
                                         continue;
                                     }
 
@@ -182,7 +182,7 @@ void libgrpp_type2_integrals(
                                             }
 
                                             double QN = get_radial_type2_integral(radial_table, lambda_1, lambda_2, N);
-                                            if (fabs(QN) < 1e-16) {
+                                            if (fabs(QN) < 1e-16 || fabs(factor * QN) < 1e-16) {
                                                 continue;
                                             }
 
-- 
2.43.0


From 8afc4fdb20df4368429c0750b86d533c0444cbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:37 +0000
Subject: [PATCH 14/14] fix: gradients mixed up components of shells made under
 another cartesian order

The undifferentiated function was looked up with the currently installed cartesian
generator although the integrals are arranged in the order of the shell itself.
---
 libgrpp/grpp_integrals_gradient.c | 26 ++++++++------------------
 libgrpp/overlap_gradient.c        |  5 ++---
 2 files changed, 10 insertions(+), 21 deletions(-)

diff --git a/libgrpp/grpp_integrals_gradient.c b/libgrpp/grpp_integrals_gradient.c
index f342a9f..94c1570 100644
--- a/libgrpp/grpp_integrals_gradient.c
+++ b/libgrpp/grpp_integrals_gradient.c
@@ -446,11 +446,6 @@ void grpp_gradient_diff_bra_contribution(
                 bra_nlm[1] = shell_A->cart_list[3 * i + 1];
                 bra_nlm[2] = shell_A->cart_list[3 * i + 2];
 
-                int ket_nlm[3];
-                ket_nlm[0] = shell_B->cart_list[3 * j + 0];
-                ket_nlm[1] = shell_B->cart_list[3 * j + 1];
-                ket_nlm[2] = shell_B->cart_list[3 * j + 2];
-
                 int index = i * shell_B->cart_size + j;
 
                 /*
@@ -459,7 +454,7 @@ void grpp_gradient_diff_bra_contribution(
                 if (bra_nlm[icoord] > 0) {
                     bra_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
-                    int ket_index = nlm_to_linear(ket_nlm);
+                    int ket_index = j;
                     bra_nlm[icoord] += 1;
 
                     grad_arep[icoord][index] -=
@@ -477,7 +472,7 @@ void grpp_gradient_diff_bra_contribution(
                  */
                 bra_nlm[icoord] += 1;
                 int bra_index = nlm_to_linear(bra_nlm);
-                int ket_index = nlm_to_linear(ket_nlm);
+                int ket_index = j;
                 bra_nlm[icoord] -= 1;
 
                 grad_arep[icoord][index] += factor * arep_matrix_up[shell_B->cart_size * bra_index + ket_index];
@@ -635,11 +630,6 @@ void grpp_gradient_diff_ket_contribution(
         for (int i = 0; i < shell_A->cart_size; i++) {
             for (int j = 0; j < shell_B->cart_size; j++) {
 
-                int bra_nlm[3];
-                bra_nlm[0] = shell_A->cart_list[3 * i + 0];
-                bra_nlm[1] = shell_A->cart_list[3 * i + 1];
-                bra_nlm[2] = shell_A->cart_list[3 * i + 2];
-
                 int ket_nlm[3];
                 ket_nlm[0] = shell_B->cart_list[3 * j + 0];
                 ket_nlm[1] = shell_B->cart_list[3 * j + 1];
@@ -652,7 +642,7 @@ void grpp_gradient_diff_ket_contribution(
                  */
                 if (ket_nlm[icoord] > 0) {
                     ket_nlm[icoord] -= 1;
-                    int bra_index = nlm_to_linear(bra_nlm);
+                    int bra_index = i;
                     int ket_index = nlm_to_linear(ket_nlm);
                     ket_nlm[icoord] += 1;
 
@@ -670,7 +660,7 @@ void grpp_gradient_diff_ket_contribution(
                  * contribution from the L+1 gaussian
                  */
                 ket_nlm[icoord] += 1;
-                int bra_index = nlm_to_linear(bra_nlm);
+                int bra_index = i;
                 int ket_index = nlm_to_linear(ket_nlm);
                 ket_nlm[icoord] -= 1;
 
@@ -854,8 +844,8 @@ void grpp_gradient_contribution(
                  */
                 if (diff_nlm[icoord] > 0) {
                     diff_nlm[icoord] -= 1;
-                    int bra_index = nlm_to_linear(bra_nlm);
-                    int ket_index = nlm_to_linear(ket_nlm);
+                    int bra_index = diff_bra ? nlm_to_linear(bra_nlm) : i;
+                    int ket_index = diff_bra ? j : nlm_to_linear(ket_nlm);
                     diff_nlm[icoord] += 1;
 
                     int n = diff_nlm[icoord];
@@ -872,8 +862,8 @@ void grpp_gradient_contribution(
                  * contribution from the L+1 gaussian
                  */
                 diff_nlm[icoord] += 1;
-                int bra_index = nlm_to_linear(bra_nlm);
-                int ket_index = nlm_to_linear(ket_nlm);
+                int bra_index = diff_bra ? nlm_to_linear(bra_nlm) : i;
+                int ket_index = diff_bra ? j : nlm_to_linear(ket_nlm);
                 diff_nlm[icoord] -= 1;
 
                 int row_len = diff_bra ? shell_B->cart_size : cart_size_up;
diff --git a/libgrpp/overlap_gradient.c b/libgrpp/overlap_gradient.c
index fbcbea3..9cd9f7c 100644
--- a/libgrpp/overlap_gradient.c
+++ b/libgrpp/overlap_gradient.c
@@ -119,7 +119,6 @@ void overlap_gradient_diff_bra_contribution(
                 bra_nlm[0] = shell_A->cart_list[3 * i + 0];
                 bra_nlm[1] = shell_A->cart_list[3 * i + 1];
                 bra_nlm[2] = shell_A->cart_list[3 * i + 2];
-                int *ket_nlm = shell_B->cart_list + 3 * j;
                 int index = i * shell_B->cart_size + j;
 
                 /*
@@ -128,7 +127,7 @@ void overlap_gradient_diff_bra_contribution(
                 if (bra_nlm[icoord] > 0) {
                     bra_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
-                    int ket_index = nlm_to_linear(ket_nlm);
+                    int ket_index = j;
                     bra_nlm[icoord] += 1;
 
                     grad[icoord][index] -=
@@ -140,7 +139,7 @@ void overlap_gradient_diff_bra_contribution(
                  */
                 bra_nlm[icoord] += 1;
                 int bra_index = nlm_to_linear(bra_nlm);
-                int ket_index = nlm_to_linear(ket_nlm);
+                int ket_index = j;
                 bra_nlm[icoord] -= 1;
 
                 grad[icoord][index] += factor * overlap_up[shell_B->cart_size * bra_index + ket_index];
-- 
2.43.0

