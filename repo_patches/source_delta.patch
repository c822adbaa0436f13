From 45862ee1e1edf5373041e5298579521c55b8412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:45 +0000
Subject: [PATCH 01/42] fix: do not share GSL interpolation accelerators
 between threads

The accelerator caches the last interval index; gsl_interp_accel_find
writes it and then returns it, so two threads evaluating the same spline
inside an OpenMP region could use the interval of the other one's argument
and extrapolate its polynomial.
---
 src/common.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common.c b/src/common.c
index 5ab3058..a5c3328 100644
--- a/src/common.c
+++ b/src/common.c
@@ -706,7 +706,8 @@ double coffe_interp_spline(
     double value
 )
 {
-    return gsl_spline_eval(interp->spline, value, interp->accel);
+    /* the accelerator is mutable state which must not be shared between threads */
+    return gsl_spline_eval(interp->spline, value, NULL);
 }
 
 double coffe_interp_spline2d(
@@ -715,7 +716,8 @@ double coffe_interp_spline2d(
     const double value2
 )
 {
-    return gsl_spline2d_eval(interp->spline, value1, value2, interp->xaccel, interp->yaccel);
+    /* the accelerators are mutable state which must not be shared between threads */
+    return gsl_spline2d_eval(interp->spline, value1, value2, NULL, NULL);
 }
 
 int coffe_parameters_free(
-- 
2.43.0


From cc5939aef8aa283e44b5e21f099964acb69af468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:31 +0000
Subject: [PATCH 02/42] fix: use the second population's Doppler factor and the
 first one's magnification bias in lensing-Doppler

---
 src/functions.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index 464dcaa..f6fbd42 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -2559,8 +2559,8 @@ double functions_single_integrated(
                             chi1
                            *coffe_interp_spline(&bg->conformal_Hz, z2_const)
                            *coffe_interp_spline(&bg->f, z2_const)
-                           *coffe_interp_spline(&bg->G1, z2_const)
-                           *(2 - 5 * s2)
+                           *coffe_interp_spline(&bg->G2, z2_const)
+                           *(2 - 5 * s1)
                             /* integrand */
                            *(1 - x)
                            /coffe_interp_spline(&bg->a, z1)
@@ -2643,7 +2643,7 @@ double functions_single_integrated(
                         )
                         +
                         chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z2_const)
+                       *coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                         /* integrand */
                        *(1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                        *(
@@ -2697,8 +2697,8 @@ double functions_single_integrated(
                             chi1
                            *coffe_interp_spline(&bg->conformal_Hz, z2_const)
                            *coffe_interp_spline(&bg->f, z2_const)
-                           *coffe_interp_spline(&bg->G1, z2_const)
-                           *(2 - 5 * s2)
+                           *coffe_interp_spline(&bg->G2, z2_const)
+                           *(2 - 5 * s1)
                             /* integrand */
                            *(1 - x)
                            /coffe_interp_spline(&bg->a, z1)
@@ -2773,7 +2773,7 @@ double functions_single_integrated(
                         )
                         +
                         chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z2_const)
+                       *coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                         /* integrand */
                        *(1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                        *(
@@ -2860,8 +2860,8 @@ double functions_single_integrated(
                         chi1
                        *coffe_interp_spline(&bg->conformal_Hz, z2_const)
                        *coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)
-                       *(2 - 5 * s2)
+                       *coffe_interp_spline(&bg->G2, z2_const)
+                       *(2 - 5 * s1)
                         /* integrand */
                        *(1 - x)
                        /coffe_interp_spline(&bg->a, z1)
@@ -2906,7 +2906,7 @@ double functions_single_integrated(
                         )
                         +
                         chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z2_const)
+                       *coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                         /* integrand */
                        *(1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                        *(
@@ -2950,8 +2950,8 @@ double functions_single_integrated(
                         chi1
                        *coffe_interp_spline(&bg->conformal_Hz, z2_const)
                        *coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)
-                       *(2 - 5 * s2)
+                       *coffe_interp_spline(&bg->G2, z2_const)
+                       *(2 - 5 * s1)
                         /* integrand */
                        *(1 - x)
                        /coffe_interp_spline(&bg->a, z1)
@@ -2987,7 +2987,7 @@ double functions_single_integrated(
                         )
                         +
                         chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z2_const)
+                       *coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                         /* integrand */
                        *(1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                        *(
-- 
2.43.0


From 9364b90fbdb515cd0250c1a2646475c51a35cdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:31 +0000
Subject: [PATCH 03/42] fix: include 1/a at the local point in the
 potential-lensing terms

---
 src/functions.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index f6fbd42..aef9cc3 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -3038,7 +3038,7 @@ double functions_single_integrated(
             /* constant in front */
             9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/4.
            *(
-                chi2*(1 + coffe_interp_spline(&bg->G1, z1_const))*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
+                chi2*(1 + coffe_interp_spline(&bg->G1, z1_const))*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)/coffe_interp_spline(&bg->a, z1_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)
@@ -3048,7 +3048,7 @@ double functions_single_integrated(
                     )
                 )
                 +
-                chi1*(1 + coffe_interp_spline(&bg->G2, z2_const))*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
+                chi1*(1 + coffe_interp_spline(&bg->G2, z2_const))*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)/coffe_interp_spline(&bg->a, z2_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
@@ -3068,7 +3068,7 @@ double functions_single_integrated(
             /* constant in front */
             9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/4.
            *(
-                chi2*(5*s1 - 2)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
+                chi2*(5*s1 - 2)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)/coffe_interp_spline(&bg->a, z1_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)
@@ -3078,7 +3078,7 @@ double functions_single_integrated(
                     )
                 )
                 +
-                chi1*(5*s2 - 2)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
+                chi1*(5*s2 - 2)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)/coffe_interp_spline(&bg->a, z2_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
@@ -3098,7 +3098,7 @@ double functions_single_integrated(
             /* constant in front */
             9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/4.
            *(
-                chi2*(coffe_interp_spline(&bg->f, z1_const) - 1)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
+                chi2*(coffe_interp_spline(&bg->f, z1_const) - 1)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)/coffe_interp_spline(&bg->a, z1_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)
@@ -3108,7 +3108,7 @@ double functions_single_integrated(
                     )
                 )
                 +
-                chi1*(coffe_interp_spline(&bg->f, z2_const) - 1)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
+                chi1*(coffe_interp_spline(&bg->f, z2_const) - 1)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)/coffe_interp_spline(&bg->a, z2_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
-- 
2.43.0


From cbe1bcecf12258354265268a09ee3e31600e66d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:31 +0000
Subject: [PATCH 04/42] fix: divide by the scale factor in the density-ISW term

---
 src/functions.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index aef9cc3..92580f7 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -3151,13 +3151,13 @@ double functions_single_integrated(
                 chi2*b1*coffe_interp_spline(&bg->G2, z2_const)*coffe_interp_spline(&bg->D1, z1_const)
                 /* integrand */
                *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->f, z2) - 1)
-               *coffe_interp_spline(&bg->D1, z2)*coffe_interp_spline(&bg->a, z2)
+               *coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)
                *coffe_interp_spline(&coffe_find_integral(integral, 2, 0, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r21))
                +
                 chi1*b2*coffe_interp_spline(&bg->G1, z1_const)*coffe_interp_spline(&bg->D1, z2_const)
                 /* integrand */
                *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->f, z1) - 1)
-               *coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->a, z1)
+               *coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                *coffe_interp_spline(&coffe_find_integral(integral, 2, 0, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r22))
             ));
     }
-- 
2.43.0


From f4efd3798b1e5f8b70570f068ac1c1b2ce697c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:31 +0000
Subject: [PATCH 05/42] fix: use the growth rate in the ISW-lensing term

---
 src/functions.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index 92580f7..de9f8ff 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -3927,7 +3927,7 @@ double functions_double_integrated(
                 9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/2.
                *(
                     (2 - 5*s2)*coffe_interp_spline(&bg->G1, z1_const)*chi1
-                   *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->conformal_Hz, z1) - 1)
+                   *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->f, z1) - 1)
                    *(1 - x2)/x2*coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->D1, z2)
                    /coffe_interp_spline(&bg->a, z1)/coffe_interp_spline(&bg->a, z2)
                    *(
@@ -3936,7 +3936,7 @@ double functions_double_integrated(
                     )
                     +
                     (2 - 5*s1)*coffe_interp_spline(&bg->G2, z2_const)*chi2
-                   *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->conformal_Hz, z2) - 1)
+                   *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->f, z2) - 1)
                    *(1 - x1)/x1*coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->D1, z2)
                    /coffe_interp_spline(&bg->a, z1)/coffe_interp_spline(&bg->a, z2)
                    *(
@@ -3950,13 +3950,13 @@ double functions_double_integrated(
                 9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/2.
                *(
                     (2 - 5*s2)*coffe_interp_spline(&bg->G1, z1_const)*chi1
-                   *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->conformal_Hz, z1) - 1)
+                   *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->f, z1) - 1)
                    *(1 - x2)/x2*coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->D1, z2)
                    /coffe_interp_spline(&bg->a, z1)/coffe_interp_spline(&bg->a, z2)
                    *2*lambda1*lambda2*coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, 0.0)
                     +
                     (2 - 5*s1)*coffe_interp_spline(&bg->G2, z2_const)*chi2
-                   *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->conformal_Hz, z2) - 1)
+                   *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->f, z2) - 1)
                    *(1 - x1)/x1*coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->D1, z2)
                    /coffe_interp_spline(&bg->a, z1)/coffe_interp_spline(&bg->a, z2)
                    *2*lambda1*lambda2*coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, 0.0)
-- 
2.43.0


From e29f025e6eb4cf9d654ca11b9666ea6cddb08469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:24 +0000
Subject: [PATCH 06/42] fix: let the renormalization table cover all redshifts

---
 src/integrals.c | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/src/integrals.c b/src/integrals.c
index 27a0859..300ad05 100644
--- a/src/integrals.c
+++ b/src/integrals.c
@@ -854,28 +854,8 @@ int coffe_integrals_init(
             );
 
             double chi_min = 0.;
-            double chi_max = 0.;
-            if (
-                par->output_type == CORRFUNC ||
-                par->output_type == MULTIPOLES
-            ){
-                /* dimensionless */
-                double *temp = (double *)coffe_malloc(sizeof(double) * par->z_mean_len);
-                for (size_t i = 0; i < par->z_mean_len; ++i)
-                    temp[i] = par->z_mean[i] + par->deltaz[i];
-                chi_max = coffe_interp_spline(
-                    &bg->comoving_distance,
-                    coffe_max_array_double(temp, par->z_mean_len)
-                );
-                free(temp);
-            }
-            else if (par->output_type == AVERAGE_MULTIPOLES){
-                /* dimensionless */
-                chi_max = coffe_interp_spline(
-                    &bg->comoving_distance,
-                    coffe_max_array_double(par->zmax, par->zmax_len)
-                );
-            }
+            /* the table must cover any pair of distances, whichever redshifts are requested later on */
+            const double chi_max = bg->z_as_chi.spline->interp->xmax;
             double *chi_array = (double *)coffe_malloc(
                 sizeof(double) * (nbins + 1)
             );
-- 
2.43.0


From ea2d183a069e2d5dda1c945d46685386a44c29d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:25 +0000
Subject: [PATCH 07/42] fix: include the Doppler prefactor in the local Doppler
 cross terms

---
 src/functions.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index de9f8ff..776610e 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -1222,9 +1222,9 @@ double functions_nonintegrated(
         par->correlation_contrib.d2
     ){
         result += -(
-                (3 - fevo2)*curlyH1*pow(curlyH2, 2)*f1*f2*(chi2*costheta - chi1)
+                (3 - fevo2)*G1*curlyH1*pow(curlyH2, 2)*f1*f2*(chi2*costheta - chi1)
                 +
-                (3 - fevo1)*curlyH2*pow(curlyH1, 2)*f2*f1*(chi1*costheta - chi2)
+                (3 - fevo1)*G2*curlyH2*pow(curlyH1, 2)*f2*f1*(chi1*costheta - chi2)
             )
            *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sep);
     }
@@ -1234,9 +1234,9 @@ double functions_nonintegrated(
         par->correlation_contrib.g1
     ){
         result += pow(COFFE_H0 * par->h, 2) * ((
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*(1 + G2)*(chi2*costheta - chi1)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*G1*(1 + G2)*(chi2*costheta - chi1)
                 +
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*(1 + G1)*(chi1*costheta - chi2)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*G2*(1 + G1)*(chi1*costheta - chi2)
             )
            *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sep));
     }
@@ -1246,9 +1246,9 @@ double functions_nonintegrated(
         par->correlation_contrib.g2
     ){
         result += pow(COFFE_H0 * par->h, 2) * ((
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*(5*s2 - 2)*(chi2*costheta - chi1)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*G1*(5*s2 - 2)*(chi2*costheta - chi1)
                 +
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*(5*s1 - 2)*(chi1*costheta - chi2)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*G2*(5*s1 - 2)*(chi1*costheta - chi2)
             )
            *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sep));
     }
@@ -1258,9 +1258,9 @@ double functions_nonintegrated(
         par->correlation_contrib.g3
     ){
         result += pow(COFFE_H0 * par->h, 2) * ((
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*(f2 - 1.)*(chi2*costheta - chi1)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*G1*(f2 - 1.)*(chi2*costheta - chi1)
                 +
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*(f1 - 1.)*(chi1*costheta - chi2)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*G2*(f1 - 1.)*(chi1*costheta - chi2)
             )
            *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sep));
     }
-- 
2.43.0


From 4da3d7cb77a9e2e4237826925000739a0e764c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:25 +0000
Subject: [PATCH 08/42] fix: include the Doppler prefactor in the
 Doppler-time-delay and Doppler-ISW terms

---
 src/functions.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index 776610e..e868448 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -3225,11 +3225,11 @@ double functions_single_integrated(
         result += pow(COFFE_H0 * par->h, 2)*(
             3*(par->Omega0_cdm + par->Omega0_baryon)
            *(
-                coffe_interp_spline(&bg->conformal_Hz, z1_const)*coffe_interp_spline(&bg->f, z1_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
+                coffe_interp_spline(&bg->conformal_Hz, z1_const)*coffe_interp_spline(&bg->f, z1_const)*coffe_interp_spline(&bg->G1, z1_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
                *coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)*(lambda2*costheta - chi1)
                *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r21))
                +
-                coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
+                coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)*coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                *coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)*(lambda1*costheta - chi2)
                *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r22))
             ));
@@ -3242,13 +3242,13 @@ double functions_single_integrated(
         result += pow(COFFE_H0 * par->h, 2)*(
             3*(par->Omega0_cdm + par->Omega0_baryon)
            *(
-                chi2*coffe_interp_spline(&bg->conformal_Hz, z1_const)*coffe_interp_spline(&bg->f, z1_const)
+                chi2*coffe_interp_spline(&bg->conformal_Hz, z1_const)*coffe_interp_spline(&bg->f, z1_const)*coffe_interp_spline(&bg->G1, z1_const)
                *coffe_interp_spline(&bg->G2, z2_const)*coffe_interp_spline(&bg->D1, z1_const)
                *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->f, z2) - 1)
                *coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)*(lambda2*costheta - chi1)
                *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r21))
                +
-                chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
+                chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)*coffe_interp_spline(&bg->G2, z2_const)
                *coffe_interp_spline(&bg->G1, z1_const)*coffe_interp_spline(&bg->D1, z2_const)
                *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->f, z1) - 1)
                *coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)*(lambda1*costheta - chi2)
-- 
2.43.0


From a00439869903b38f0dd34ecb50ae17a891048678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 09/42] fix: derive the divergent-integral flag from the
 contributions whenever integrals are set up

---
 python/coffe/coffe.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 2dc8a57..c99d6b3 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1105,8 +1105,6 @@ cdef class Coffe:
                 "'has_d1', 'has_d2', 'has_g1', 'has_g2', 'has_g3', "
                 "'has_g4', 'has_g5'"
             )
-        if any([self.has_d2, self.has_g1, self.has_g2, self.has_g3, self.has_g4, self.has_g5]):
-            self._parameters.divergent = 1
 
 
     def _balance_content(self):
@@ -3546,6 +3544,11 @@ cdef class Coffe:
         self._power_spectrum_flag = 1
 
     def _integrals_init(self):
+        # whichever call triggers the initialization, the divergent integral
+        # must be there if and only if some contribution needs it
+        self._parameters.divergent = int(
+            any([self.has_d2, self.has_g1, self.has_g2, self.has_g3, self.has_g4, self.has_g5])
+        )
         ccoffe.coffe_integrals_init(
             &self._parameters,
             &self._background,
-- 
2.43.0


From 0a12a52e106dbe4b32e7084b0c9d17632ac31b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:58 +0000
Subject: [PATCH 10/42] fix: let integrals_fftlog_sampling be set

---
 python/coffe/coffe.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index c99d6b3..5cf8278 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1648,7 +1648,7 @@ cdef class Coffe:
             1000000,
         )
 
-        self._parameter.bessel_bins = int(value)
+        self._parameters.bessel_bins = int(value)
         self._free_except_parameters()
 
 
-- 
2.43.0


From 00c2c5ce2382b5f356566a3a39bb8cf1aff4555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:47 +0000
Subject: [PATCH 11/42] fix: discard every cached table and result that depends
 on a changed setting, and only those

---
 python/coffe/coffe.pyx | 111 +++++++++++++++++++++--------------------
 1 file changed, 58 insertions(+), 53 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 5cf8278..1eadc51 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -981,10 +981,7 @@ cdef class Coffe:
         ccoffe.coffe_average_covariance_free(&self._average_covariance_multipoles)
 
 
-    def _free_except_parameters(self):
-        self._free_background()
-        self._free_power_spectrum()
-        self._free_integrals()
+    def _free_results(self):
         self._free_corrfunc()
         self._free_multipoles()
         self._free_average_multipoles()
@@ -992,6 +989,13 @@ cdef class Coffe:
         self._free_average_covariance_multipoles()
 
 
+    def _free_except_parameters(self):
+        self._free_background()
+        self._free_power_spectrum()
+        self._free_integrals()
+        self._free_results()
+
+
     def __dealloc__(self):
         self._free_except_parameters()
         ccoffe.coffe_parameters_free(&self._parameters)
@@ -1579,8 +1583,7 @@ cdef class Coffe:
         self._parameters.sep = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.sep_len):
             self._parameters.sep[i] = temp[i]
-        self._free_corrfunc()
-        self._free_multipoles()
+        self._free_results()
 
 
     @property
@@ -1649,7 +1652,8 @@ cdef class Coffe:
         )
 
         self._parameters.bessel_bins = int(value)
-        self._free_except_parameters()
+        self._free_integrals()
+        self._free_results()
 
 
     def integral(self, *, r : float, n : int, l : int):
@@ -1740,8 +1744,7 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
-        self._free_corrfunc()
-        self._free_multipoles()
+        self._free_results()
 
 
     def galaxy_bias2(self, z : float):
@@ -1773,8 +1776,7 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
-        self._free_corrfunc()
-        self._free_multipoles()
+        self._free_results()
 
 
     def galaxy_bias3(self, z : float):
@@ -1795,8 +1797,7 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
-        self._free_corrfunc()
-        self._free_multipoles()
+        self._free_results()
 
 
     def galaxy_bias4(self, z : float):
@@ -1817,8 +1818,7 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
-        self._free_corrfunc()
-        self._free_multipoles()
+        self._free_results()
 
 
     def magnification_bias1(self, z : float):
@@ -1850,8 +1850,9 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
-        self._free_corrfunc()
-        self._free_multipoles()
+        # the Doppler prefactors in the background depend on it
+        self._free_background()
+        self._free_results()
 
 
     def magnification_bias2(self, z : float):
@@ -1883,8 +1884,9 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
-        self._free_corrfunc()
-        self._free_multipoles()
+        # the Doppler prefactors in the background depend on it
+        self._free_background()
+        self._free_results()
 
 
     def evolution_bias1(self, z : float):
@@ -1904,8 +1906,9 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
-        self._free_corrfunc()
-        self._free_multipoles()
+        # the Doppler prefactors in the background depend on it
+        self._free_background()
+        self._free_results()
 
 
     def evolution_bias2(self, z : float):
@@ -1925,8 +1928,9 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
-        self._free_corrfunc()
-        self._free_multipoles()
+        # the Doppler prefactors in the background depend on it
+        self._free_background()
+        self._free_results()
 
 
     @property
@@ -1963,10 +1967,8 @@ cdef class Coffe:
         for i in range(self._parameters.multipole_values_len):
             self._parameters.multipole_values[i] = temp[i]
         # we need to free the integrals since the flat-sky ones may depend on them
-        self._free_multipoles()
-        self._free_average_multipoles()
-        self._free_covariance_multipoles()
-        self._free_average_covariance_multipoles()
+        self._free_integrals()
+        self._free_results()
 
 
     @property
@@ -2002,9 +2004,7 @@ cdef class Coffe:
         self._parameters.z_mean = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.z_mean_len):
             self._parameters.z_mean[i] = temp[i]
-        self._free_corrfunc()
-        self._free_multipoles()
-        self._free_covariance_multipoles()
+        self._free_results()
 
     @property
     def z_min(self):
@@ -2038,10 +2038,7 @@ cdef class Coffe:
         self._parameters.zmin = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.zmin_len):
             self._parameters.zmin[i] = temp[i]
-        self._free_corrfunc()
-        self._free_multipoles()
-        self._free_covariance_multipoles()
-        self._free_average_covariance_multipoles()
+        self._free_results()
 
 
     @property
@@ -2076,10 +2073,7 @@ cdef class Coffe:
         self._parameters.zmax = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.zmax_len):
             self._parameters.zmax[i] = temp[i]
-        self._free_corrfunc()
-        self._free_multipoles()
-        self._free_covariance_multipoles()
-        self._free_average_covariance_multipoles()
+        self._free_results()
 
 
     @property
@@ -2319,8 +2313,9 @@ cdef class Coffe:
             self._parameters.covariance_interpolation_method = value
         else:
             self._parameters.covariance_interpolation_method = _invert_dict(_allowed_interpolation_2d_methods)[value]
-        self._free_covariance_multipoles()
-        self._free_average_covariance_multipoles()
+        # it's also used for the renormalization of the divergent integral
+        self._free_integrals()
+        self._free_results()
 
 
     @property
@@ -2428,9 +2423,7 @@ cdef class Coffe:
         self._parameters.deltaz = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.deltaz_len):
             self._parameters.deltaz[i] = temp[i]
-        self._free_corrfunc()
-        self._free_multipoles()
-        self._free_covariance_multipoles()
+        self._free_results()
 
 
     @property
@@ -2456,7 +2449,8 @@ cdef class Coffe:
         else:
             self._parameters.integration_1d_type = _invert_dict(_allowed_integration_1d_types)[value]
 
-        self._free_except_parameters()
+        self._free_integrals()
+        self._free_results()
 
 
     @property
@@ -2477,7 +2471,8 @@ cdef class Coffe:
             1,
         )
         self._parameters.integration_1d_prec = float(value)
-        self._free_except_parameters()
+        self._free_integrals()
+        self._free_results()
 
 
     @property
@@ -2514,7 +2509,9 @@ cdef class Coffe:
         _check_parameter('background_sampling', value, int, 0, self._max_size)
 
         self._parameters.background_bins = value
-        self._free_except_parameters()
+        self._free_background()
+        self._free_integrals()
+        self._free_results()
 
 
     @property
@@ -2605,7 +2602,8 @@ cdef class Coffe:
     @has_d1.setter
     def has_d1(self, value : bool):
         self._parameters.correlation_contrib.d1 = int(bool(value))
-        self._free_except_parameters()
+        self._free_integrals()
+        self._free_results()
 
 
     @property
@@ -2619,7 +2617,8 @@ cdef class Coffe:
     @has_d2.setter
     def has_d2(self, value : bool):
         self._parameters.correlation_contrib.d2 = int(bool(value))
-        self._free_except_parameters()
+        self._free_integrals()
+        self._free_results()
 
 
     @property
@@ -2634,7 +2633,8 @@ cdef class Coffe:
     @has_g1.setter
     def has_g1(self, value : bool):
         self._parameters.correlation_contrib.g1 = int(bool(value))
-        self._free_except_parameters()
+        self._free_integrals()
+        self._free_results()
 
 
     @property
@@ -2649,7 +2649,8 @@ cdef class Coffe:
     @has_g2.setter
     def has_g2(self, value : bool):
         self._parameters.correlation_contrib.g2 = int(bool(value))
-        self._free_except_parameters()
+        self._free_integrals()
+        self._free_results()
 
 
     @property
@@ -2664,7 +2665,8 @@ cdef class Coffe:
     @has_g3.setter
     def has_g3(self, value : bool):
         self._parameters.correlation_contrib.g3 = int(bool(value))
-        self._free_except_parameters()
+        self._free_integrals()
+        self._free_results()
 
 
     @property
@@ -2679,7 +2681,8 @@ cdef class Coffe:
     @has_g4.setter
     def has_g4(self, value : bool):
         self._parameters.correlation_contrib.g4 = int(bool(value))
-        self._free_except_parameters()
+        self._free_integrals()
+        self._free_results()
 
 
     @property
@@ -2694,7 +2697,8 @@ cdef class Coffe:
     @has_g5.setter
     def has_g5(self, value : bool):
         self._parameters.correlation_contrib.g5 = int(bool(value))
-        self._free_except_parameters()
+        self._free_integrals()
+        self._free_results()
 
 
     def reset_contributions(self):
@@ -2991,6 +2995,7 @@ cdef class Coffe:
         free(y_norm)
 
         self._free_integrals()
+        self._free_results()
 
 
     def comoving_distance(self, z : float):
-- 
2.43.0


From eb358a3f8e81ef649e7e5ac20520e7fab67a1fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 12/42] fix: do not discard cached results when the parameters
 are read

---
 python/coffe/coffe.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 1eadc51..d2cddaf 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1147,10 +1147,13 @@ cdef class Coffe:
             if key != 'parameters' and hasattr(getattr(self.__class__, key), '__set__')
         }
         writable = {}
+        # the attempts to set are made on another instance, as setting an
+        # attribute discards the things we already computed
+        scratch = self.__class__()
         for key in properties:
             try:
-                setattr(self, key, getattr(self, key))
-                writable[key] = getattr(self, key)
+                setattr(scratch, key, getattr(scratch, key))
+                writable[key] = properties[key]
             except AttributeError:
                 pass
         return writable
-- 
2.43.0


From c239f55d3accb22b801f786be0e13fa1b6f70736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:07 +0000
Subject: [PATCH 13/42] fix: store every accepted value, however close to the
 previous one, and reject NaN

---
 python/coffe/coffe.pyx | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index d2cddaf..6d14a78 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -98,12 +98,12 @@ def _check_parameter(
             f'Expected {kind}, got {type(value)}'
         )
 
-    if xmin is not None and value < xmin:
+    if xmin is not None and not value >= xmin:
         raise ValueError(
             f'Value {value} smaller than xmin ({xmin})'
         )
 
-    if xmax is not None and value > xmax:
+    if xmax is not None and not value <= xmax:
         raise ValueError(
             f'Value {value} larger than xmax ({xmax})'
         )
@@ -1184,7 +1184,7 @@ cdef class Coffe:
     @omega_cdm.setter
     def omega_cdm(self, value):
         _check_parameter('omega_cdm', value, (int, float), -100, 100)
-        if not np.allclose(value, self.omega_cdm):
+        if value != self.omega_cdm:
             # we set the value, rebalance the Omega budget, and free memory
             self._check_omegas(value, self.omega_baryon, self.omega_gamma, self.omega_nu)
             self._parameters.Omega0_cdm = value / self._coeff
@@ -1212,7 +1212,7 @@ cdef class Coffe:
     @omega_m.setter
     def omega_m(self, value):
         _check_parameter('omega_m', value, (int, float), -100, 100)
-        if not np.allclose(value, self.omega_m):
+        if value != self.omega_m:
             # we set the value, rebalance the Omega budget, and free memory
             self._check_omegas(value, self.omega_gamma)
             self._parameters.Omega0_m = value / self._coeff
@@ -1233,7 +1233,7 @@ cdef class Coffe:
     @omega_baryon.setter
     def omega_baryon(self, value):
         _check_parameter('omega_baryon', value, (int, float), -100, 100)
-        if not np.allclose(value, self.omega_baryon):
+        if value != self.omega_baryon:
             # we set the value, rebalance the Omega budget, and free memory
             self._check_omegas(value, self.omega_cdm, self.omega_gamma)
             self._parameters.Omega0_baryon = value / self._coeff
@@ -1253,7 +1253,7 @@ cdef class Coffe:
     @omega_gamma.setter
     def omega_gamma(self, value):
         _check_parameter('omega_gamma', value, (int, float), -100, 100)
-        if not np.allclose(value, self.omega_gamma):
+        if value != self.omega_gamma:
             self._check_omegas(value, self.omega_m)
             self._parameters.Omega0_gamma = value / self._coeff
             self._balance_content()
@@ -1280,7 +1280,7 @@ cdef class Coffe:
     @h.setter
     def h(self, value):
         _check_parameter('h', value, (int, float), 0, 100)
-        if not np.allclose(value, self.h):
+        if value != self.h:
             # setting the old value equal to the new value of h
             self._parameters.h = value
             self._balance_content()
@@ -1302,7 +1302,7 @@ cdef class Coffe:
     @w0.setter
     def w0(self, value):
         _check_parameter('w0', value, (int, float), -100, 100)
-        if not np.allclose(value, self.w0):
+        if value != self.w0:
             self._parameters.w0 = value
             self._free_except_parameters()
 
@@ -1402,7 +1402,7 @@ cdef class Coffe:
     @wa.setter
     def wa(self, value):
         _check_parameter('wa', value, (int, float), -100, 100)
-        if not np.allclose(value, self.wa):
+        if value != self.wa:
             self._parameters.wa = value
             self._free_except_parameters()
 
@@ -1418,7 +1418,7 @@ cdef class Coffe:
     @n_s.setter
     def n_s(self, value):
         _check_parameter('n_s', value, (int, float), -100, 100)
-        if not np.allclose(value, self.n_s):
+        if value != self.n_s:
             self._parameters.n_s = value
             self._free_except_parameters()
 
@@ -1434,7 +1434,7 @@ cdef class Coffe:
     @sigma8.setter
     def sigma8(self, value):
         _check_parameter('sigma8', value, (int, float), -100, 100)
-        if not np.allclose(value, self.sigma8):
+        if value != self.sigma8:
             self._parameters.sigma8 = value
             self._free_power_spectrum()
             self._free_integrals()
@@ -1477,7 +1477,7 @@ cdef class Coffe:
     @T_cmb.setter
     def T_cmb(self, value):
         _check_parameter('T_cmb', value, (int, float), -100, 100)
-        if not np.allclose(value, self.T_cmb):
+        if value != self.T_cmb:
             self._parameters.T_cmb = value
             self._free_except_parameters()
 
@@ -1493,7 +1493,7 @@ cdef class Coffe:
     @N_ur.setter
     def N_ur(self, value):
         _check_parameter('N_ur', value, (int, float), -100, 100)
-        if not np.allclose(value, self.N_ur):
+        if value != self.N_ur:
             self._parameters.N_ur = value
             self._free_except_parameters()
 
@@ -1510,7 +1510,7 @@ cdef class Coffe:
     @m_ncdm.setter
     def m_ncdm(self, value):
         _check_parameter('m_ncdm', value, (int, float), -100, 100)
-        if not np.allclose(value, self.m_ncdm):
+        if value != self.m_ncdm:
             self._parameters.m_ncdm = value
             # see eq. (19) of https://arxiv.org/abs/1212.6154
             # note that little omega(nu) doesn't change if we change h, but big
@@ -1531,7 +1531,7 @@ cdef class Coffe:
     @YHe.setter
     def YHe(self, value):
         _check_parameter('YHe', value, (int, float), -100, 100)
-        if not np.allclose(value, self.YHe):
+        if value != self.YHe:
             self._parameters.YHe = value
             self._free_except_parameters()
 
@@ -1547,7 +1547,7 @@ cdef class Coffe:
     @N_ncdm.setter
     def N_ncdm(self, value):
         _check_parameter('N_ncdm', value, int, -100, 100)
-        if not np.allclose(value, self.N_ncdm):
+        if value != self.N_ncdm:
             self._parameters.N_ncdm = value
             self._free_except_parameters()
 
-- 
2.43.0


From 273d3c2185b9f2c1d3a124c04c18e0930d754046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:29 +0000
Subject: [PATCH 14/42] fix: keep the energy budget consistent with massive
 neutrinos when h or omega_cdm change

---
 python/coffe/coffe.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 6d14a78..fbb07fa 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1188,7 +1188,7 @@ cdef class Coffe:
             # we set the value, rebalance the Omega budget, and free memory
             self._check_omegas(value, self.omega_baryon, self.omega_gamma, self.omega_nu)
             self._parameters.Omega0_cdm = value / self._coeff
-            self._parameters.Omega0_m = self._parameters.Omega0_cdm + self._parameters.Omega0_baryon
+            self._parameters.Omega0_m = self._parameters.Omega0_cdm + self._parameters.Omega0_baryon + self._parameters.Omega0_nu
             self._balance_content()
             self._free_except_parameters()
 
@@ -1283,6 +1283,9 @@ cdef class Coffe:
         if value != self.h:
             # setting the old value equal to the new value of h
             self._parameters.h = value
+            # little omega(nu) is fixed by the masses
+            self._parameters.Omega0_nu = self._parameters.m_ncdm / 93.14 / self.h / self.h
+            self._parameters.Omega0_cdm = self._parameters.Omega0_m - self._parameters.Omega0_baryon - self._parameters.Omega0_nu
             self._balance_content()
             self._free_except_parameters()
 
-- 
2.43.0


From ceccdb80931443d4dc4fe5fb8fbbc37c630caf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:47 +0000
Subject: [PATCH 15/42] fix: recompute the background when the 1D integration
 settings change

---
 python/coffe/coffe.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index fbb07fa..0c2e4ef 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -2455,6 +2455,7 @@ cdef class Coffe:
         else:
             self._parameters.integration_1d_type = _invert_dict(_allowed_integration_1d_types)[value]
 
+        self._free_background()
         self._free_integrals()
         self._free_results()
 
@@ -2477,6 +2478,7 @@ cdef class Coffe:
             1,
         )
         self._parameters.integration_1d_prec = float(value)
+        self._free_background()
         self._free_integrals()
         self._free_results()
 
-- 
2.43.0


From b162f5fa5a7fbf9f2d43442f280647ca9d0631dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:58 +0000
Subject: [PATCH 16/42] fix: include massive neutrinos in the Hubble rate, so
 that the energy budget closes

---
 src/background.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/background.c b/src/background.c
index 9845cde..c5408c8 100644
--- a/src/background.c
+++ b/src/background.c
@@ -152,6 +152,8 @@ struct integration_params
 
     double Omega0_baryon; /* omega parameter for baryons */
 
+    double Omega0_nu; /* omega parameter for massive neutrinos */
+
     double Omega0_gamma; /* omega parameter for photons */
 
     double Omega0_de; /* present omega parameter for dark energy-like component */
@@ -287,7 +289,7 @@ static double integrand_comoving(
 {
     struct integration_params *par = (struct integration_params *) p;
     double integrand = 1./pow(
-        (par->Omega0_cdm + par->Omega0_baryon)*pow(1 + z, 3)
+        (par->Omega0_cdm + par->Omega0_baryon + par->Omega0_nu)*pow(1 + z, 3)
        +par->Omega0_gamma*pow(1 + z, 4)
        +par->Omega0_de*coffe_interp_spline(&par->wint, z),
         1./2);
@@ -330,6 +332,7 @@ int coffe_background_init(
 
     struct integration_params ipar;
     ipar.Omega0_cdm = par->Omega0_cdm;
+    ipar.Omega0_nu = par->Omega0_nu;
     ipar.Omega0_baryon = par->Omega0_baryon;
     ipar.Omega0_gamma = par->Omega0_gamma;
     ipar.Omega0_de = par->Omega0_de;
@@ -456,7 +459,7 @@ int coffe_background_init(
         (temp_bg->z)[i] = z;
         (temp_bg->a)[i] = 1./(1. + z);
         (temp_bg->Hz)[i] = sqrt(
-             (par->Omega0_cdm + par->Omega0_baryon)*pow(1 + z, 3)
+             (par->Omega0_cdm + par->Omega0_baryon + par->Omega0_nu)*pow(1 + z, 3)
             +par->Omega0_gamma*pow(1 + z, 4)
             +par->Omega0_de*wint) * par->h * COFFE_H0; // in units 1 / Mpc
         (temp_bg->conformal_Hz)[i] = (temp_bg->a)[i]*(temp_bg->Hz)[i]; // in units 1 / Mpc
@@ -465,7 +468,7 @@ int coffe_background_init(
            *(
                 2 * (1 + z) * par->Omega0_gamma
                 +
-                (par->Omega0_cdm + par->Omega0_baryon)
+                (par->Omega0_cdm + par->Omega0_baryon + par->Omega0_nu)
             )
             +
             (1 + 3 * w) * par->Omega0_de * wint
-- 
2.43.0


From a95b05228fa894e52fc7a22e494a6a5ddea0fa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:28 +0000
Subject: [PATCH 17/42] fix: read back every option that to_file writes

---
 python/coffe/coffe.pyx | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 0c2e4ef..66e6150 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -65,13 +65,15 @@ class CoffeConfigParser(ConfigParser):
         """
         Converts the value of the option to a list of floats
         """
-        return [float(_) for _ in self.get(section, option).strip("[]").split(",")]
+        values = self.get(section, option).strip("[]")
+        return [float(_) for _ in values.split(",")] if values.strip() else []
 
     def getint_array(self, section, option, *args, **kwargs):
         """
         Converts the value of the option to a list of ints
         """
-        return [int(_) for _ in self.get(section, option).strip("[]").split(",")]
+        values = self.get(section, option).strip("[]")
+        return [int(_) for _ in values.split(",")] if values.strip() else []
 
     def getstr_array(self, section, option, *args, **kwargs):
         """
@@ -656,7 +658,7 @@ cdef class Coffe:
             if option in config:
                 setattr(cosmo, option, config.getfloat_array(option))
 
-        options_int_array = ["l"]
+        options_int_array = ["l", "covariance_populations"]
         for option in options_int_array:
             if option in config:
                 setattr(cosmo, option, config.getint_array(option))
@@ -674,7 +676,8 @@ cdef class Coffe:
             "A_s",
             "k_per_decade_for_bao",
             "k_per_decade_for_pk",
-            "start_large_k_at_tau_c_over_tau_h",
+            "start_large_k_at_tau_h_over_tau_k",
+            "integration_1d_prec",
             "l_max_g",
             "l_max_ur",
             "tol_perturb_integration",
@@ -697,9 +700,11 @@ cdef class Coffe:
             "has_d1",
             "has_d2",
             "has_g1",
+            "has_g2",
             "has_g3",
             "has_g4",
             "has_g5",
+            "has_only_cross_correlations",
             "integration_sampling",
             "background_sampling",
             "has_binned_covariance",
@@ -712,6 +717,7 @@ cdef class Coffe:
             "covariance_integration_sampling",
             "integrals_fftlog_sampling",
             "N_ncdm",
+            "verbose",
         }
         for option in options_int:
             if option in config:
-- 
2.43.0


From fc81eec8f668be1a2e9cdad569e1232fb4a11c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:39 +0000
Subject: [PATCH 18/42] fix: return the actual sampling points of the biases

---
 python/coffe/coffe.pyx | 60 ++++++++++++++----------------------------
 1 file changed, 20 insertions(+), 40 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 66e6150..8e9cf5d 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -141,6 +141,18 @@ cdef double get_spline_max(
 
 
 
+cdef get_spline_nodes(
+    ccoffe.coffe_interpolation *interp,
+):
+    """
+    Returns the points at which the spline is sampled
+    """
+    return np.array(
+        [dereference(interp.spline).x[i] for i in range(get_spline_size(interp))]
+    )
+
+
+
 cdef double evaluate_spline(
     ccoffe.coffe_interpolation *interp,
     const double x,
@@ -851,11 +863,7 @@ cdef class Coffe:
 
     def galaxy_bias1_redshifts(self):
         """Return the redshifts of the galaxy bias 1 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias1)
-        xmin = get_spline_min(&self._parameters.galaxy_bias1)
-        xmax = get_spline_max(&self._parameters.galaxy_bias1)
-
-        return np.linspace(xmin, xmax, size)
+        return get_spline_nodes(&self._parameters.galaxy_bias1)
 
     def galaxy_bias1_values(self):
         """Return the values of the galaxy bias 1 spline."""
@@ -864,11 +872,7 @@ cdef class Coffe:
 
     def galaxy_bias2_redshifts(self):
         """Return the redshifts of the galaxy bias 2 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias2)
-        xmin = get_spline_min(&self._parameters.galaxy_bias2)
-        xmax = get_spline_max(&self._parameters.galaxy_bias2)
-
-        return np.linspace(xmin, xmax, size)
+        return get_spline_nodes(&self._parameters.galaxy_bias2)
 
     def galaxy_bias2_values(self):
         """Return the values of the galaxy bias 2 spline."""
@@ -876,11 +880,7 @@ cdef class Coffe:
 
     def galaxy_bias3_redshifts(self):
         """Return the redshifts of the galaxy bias 3 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias3)
-        xmin = get_spline_min(&self._parameters.galaxy_bias3)
-        xmax = get_spline_max(&self._parameters.galaxy_bias3)
-
-        return np.linspace(xmin, xmax, size)
+        return get_spline_nodes(&self._parameters.galaxy_bias3)
 
     def galaxy_bias3_values(self):
         """Return the values of the galaxy bias 3 spline."""
@@ -888,11 +888,7 @@ cdef class Coffe:
 
     def galaxy_bias4_redshifts(self):
         """Return the redshifts of the galaxy bias 4 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias4)
-        xmin = get_spline_min(&self._parameters.galaxy_bias4)
-        xmax = get_spline_max(&self._parameters.galaxy_bias4)
-
-        return np.linspace(xmin, xmax, size)
+        return get_spline_nodes(&self._parameters.galaxy_bias4)
 
     def galaxy_bias4_values(self):
         """Return the values of the galaxy bias 4 spline."""
@@ -901,11 +897,7 @@ cdef class Coffe:
 
     def magnification_bias1_redshifts(self):
         """Return the redshifts of the magnification bias 1 spline."""
-        size = get_spline_size(&self._parameters.magnification_bias1)
-        xmin = get_spline_min(&self._parameters.magnification_bias1)
-        xmax = get_spline_max(&self._parameters.magnification_bias1)
-
-        return np.linspace(xmin, xmax, size)
+        return get_spline_nodes(&self._parameters.magnification_bias1)
 
     def magnification_bias1_values(self):
         """Return the values of the magnification bias 1 spline."""
@@ -914,11 +906,7 @@ cdef class Coffe:
 
     def magnification_bias2_redshifts(self):
         """Return the redshifts of the magnification bias 2 spline."""
-        size = get_spline_size(&self._parameters.magnification_bias2)
-        xmin = get_spline_min(&self._parameters.magnification_bias2)
-        xmax = get_spline_max(&self._parameters.magnification_bias2)
-
-        return np.linspace(xmin, xmax, size)
+        return get_spline_nodes(&self._parameters.magnification_bias2)
 
     def magnification_bias2_values(self):
         """Return the values of the magnification bias 2 spline."""
@@ -927,11 +915,7 @@ cdef class Coffe:
 
     def evolution_bias1_redshifts(self):
         """Return the redshifts of the evolution bias 1 spline."""
-        size = get_spline_size(&self._parameters.evolution_bias1)
-        xmin = get_spline_min(&self._parameters.evolution_bias1)
-        xmax = get_spline_max(&self._parameters.evolution_bias1)
-
-        return np.linspace(xmin, xmax, size)
+        return get_spline_nodes(&self._parameters.evolution_bias1)
 
     def evolution_bias1_values(self):
         """Return the values of the evolution bias 1 spline."""
@@ -940,11 +924,7 @@ cdef class Coffe:
 
     def evolution_bias2_redshifts(self):
         """Return the redshifts of the evolution bias 2 spline."""
-        size = get_spline_size(&self._parameters.evolution_bias2)
-        xmin = get_spline_min(&self._parameters.evolution_bias2)
-        xmax = get_spline_max(&self._parameters.evolution_bias2)
-
-        return np.linspace(xmin, xmax, size)
+        return get_spline_nodes(&self._parameters.evolution_bias2)
 
     def evolution_bias2_values(self):
         """Return the values of the evolution bias 2 spline."""
-- 
2.43.0


From 1908fa4c160b634cc528a2207459a1368308b3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:10 +0000
Subject: [PATCH 19/42] fix: reject bias and spectrum tables that cannot be
 interpolated instead of aborting

---
 python/coffe/coffe.pyx | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 8e9cf5d..097bbd9 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -120,6 +120,30 @@ def _check_parameter_discrete(
         raise ValueError(f"The value `{name}={value}` is not one of `{allowed_values}")
 
 
+def _check_sampling(x_sampling, y_sampling):
+    """
+    Checks that a function sampled at some points can be interpolated (the
+    default method, Akima, requires at least 5 points), and returns the points
+    and the values as arrays.
+    """
+    x = np.array(x_sampling, dtype=float)
+    y = np.array(y_sampling, dtype=float)
+
+    if x.ndim != 1 or x.shape != y.shape:
+        raise ValueError(
+            f'Mismatching shapes for x ({x.shape}) and y ({y.shape})'
+        )
+    if len(x) < 5:
+        raise ValueError('At least 5 sampling points are required')
+    if not (np.all(np.isfinite(x)) and np.all(np.isfinite(y))):
+        raise ValueError('The input arrays must only contain finite numbers')
+    if not np.all(np.diff(x) > 0):
+        raise ValueError('The input array must be sorted and without duplicates')
+
+    return x, y
+
+
+
 cdef int get_spline_size(
     ccoffe.coffe_interpolation *interp,
 ) except *:
@@ -180,12 +204,7 @@ cdef int set_spline(
     """
     Sets the value of the spline according to some x_sampling and y_sampling
     """
-    if not np.allclose(x_sampling, np.sort(x_sampling)):
-        raise ValueError('The input array must be sorted')
-    if len(x_sampling) != len(y_sampling):
-        raise ValueError(
-            f'Mismatching lengths for x ({len(x_sampling)}) and y ({len(y_sampling)})'
-        )
+    x_sampling, y_sampling = _check_sampling(x_sampling, y_sampling)
 
     _check_parameter('xmin', x_sampling[0], (int, float), xmin=xmin)
     _check_parameter('xmax', x_sampling[-1], (int, float), xmax=xmax)
@@ -2945,11 +2964,9 @@ cdef class Coffe:
         None
         """
         # value checking
-        if not np.allclose(k, np.sort(k)):
-            raise ValueError('The input k array must be sorted')
-
-        if len(k) != len(pk):
-            raise ValueError('The input arrays have mismatching lengths')
+        k, pk = _check_sampling(k, pk)
+        if k[0] <= 0:
+            raise ValueError('The wavenumbers must be positive')
 
         # TODO error checking for z and rescaling if z > 0
 
-- 
2.43.0


From 4badba6b8c003eaa6a1003aa924568fd7a9cb7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:26 +0000
Subject: [PATCH 20/42] fix: release replaced splines and bias fits

---
 python/coffe/coffe.pyx | 2 ++
 src/background.c       | 3 ++-
 src/common.c           | 4 ++++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 097bbd9..6f3850f 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -220,6 +220,8 @@ cdef int set_spline(
         x[i] = x_sampling[i]
         y[i] = y_sampling[i]
 
+    # the previous one isn't needed anymore
+    ccoffe.coffe_free_spline(interp)
     ccoffe.coffe_init_spline(interp, x, y, size, interp1d_type)
 
     free(x)
diff --git a/src/background.c b/src/background.c
index c5408c8..5d0cf19 100644
--- a/src/background.c
+++ b/src/background.c
@@ -92,6 +92,7 @@ int coffe_get_bias_coefficients(
     coffe_fit_coefficients_array_t *bias_coefficients
 )
 {
+    coffe_free_fit_coefficients_array(bias_coefficients);
     bias_coefficients->size = z_mean_size;
     bias_coefficients->array = (coffe_fit_coefficients_t *)coffe_malloc(
         sizeof(coffe_fit_coefficients_t) * bias_coefficients->size
@@ -639,7 +640,7 @@ int coffe_background_init(
     gsl_spline_free(ipar.xint.spline), gsl_interp_accel_free(ipar.xint.accel);
 
     /* this should maybe be placed in some other module as to not bloat this one */
-    if (par->flatsky_nonlocal && par->z_mean_len){
+    if (par->flatsky_nonlocal && par->z_mean_len && par->sep_len){
 
         coffe_get_bias_coefficients(
             &bg->comoving_distance, &bg->z_as_chi,
diff --git a/src/common.c b/src/common.c
index a5c3328..b10ec18 100644
--- a/src/common.c
+++ b/src/common.c
@@ -800,6 +800,8 @@ int coffe_parameters_free(
         coffe_free_fit_coefficients_array(&par->galaxy_bias2_coefficients);
         coffe_free_fit_coefficients_array(&par->magnification_bias1_coefficients);
         coffe_free_fit_coefficients_array(&par->magnification_bias2_coefficients);
+        coffe_free_fit_coefficients_array(&par->evolution_bias1_coefficients);
+        coffe_free_fit_coefficients_array(&par->evolution_bias2_coefficients);
 
         par->flag = 0;
     }
@@ -1284,8 +1286,10 @@ int coffe_free_fit_coefficients_array(
     if (input->size){
         for (size_t i = 0; i < input->size; ++i)
             coffe_free_fit_coefficients(&input->array[i]);
+        free(input->array);
     }
     input->size = 0;
+    input->array = NULL;
 
     return EXIT_SUCCESS;
 }
-- 
2.43.0


From fea74793c1749b87f95d68bd610439084c0834be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:48 +0000
Subject: [PATCH 21/42] fix: do not leak empty coordinate lists

---
 python/coffe/coffe.pyx | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 6f3850f..88d8866 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1593,7 +1593,7 @@ cdef class Coffe:
             free(self._parameters.sep)
 
         self._parameters.sep_len = len(temp)
-        self._parameters.sep = <double *> malloc(sizeof(double) * len(temp))
+        self._parameters.sep = <double *> malloc(sizeof(double) * len(temp)) if len(temp) else NULL
         for i in range(self._parameters.sep_len):
             self._parameters.sep[i] = temp[i]
         self._free_results()
@@ -1633,7 +1633,7 @@ cdef class Coffe:
             free(self._parameters.mu)
 
         self._parameters.mu_len = len(temp)
-        self._parameters.mu = <double *> malloc(sizeof(double) * len(temp))
+        self._parameters.mu = <double *> malloc(sizeof(double) * len(temp)) if len(temp) else NULL
         for i in range(self._parameters.mu_len):
             self._parameters.mu[i] = temp[i]
         # we need to re-compute it since we changed the values
@@ -1976,7 +1976,7 @@ cdef class Coffe:
             free(self._parameters.multipole_values)
 
         self._parameters.multipole_values_len = len(temp)
-        self._parameters.multipole_values = <int *> malloc(sizeof(int) * len(temp))
+        self._parameters.multipole_values = <int *> malloc(sizeof(int) * len(temp)) if len(temp) else NULL
         for i in range(self._parameters.multipole_values_len):
             self._parameters.multipole_values[i] = temp[i]
         # we need to free the integrals since the flat-sky ones may depend on them
@@ -2014,7 +2014,7 @@ cdef class Coffe:
             free(self._parameters.z_mean)
 
         self._parameters.z_mean_len = len(temp)
-        self._parameters.z_mean = <double *> malloc(sizeof(double) * len(temp))
+        self._parameters.z_mean = <double *> malloc(sizeof(double) * len(temp)) if len(temp) else NULL
         for i in range(self._parameters.z_mean_len):
             self._parameters.z_mean[i] = temp[i]
         self._free_results()
@@ -2048,7 +2048,7 @@ cdef class Coffe:
             free(self._parameters.zmin)
 
         self._parameters.zmin_len = len(temp)
-        self._parameters.zmin = <double *> malloc(sizeof(double) * len(temp))
+        self._parameters.zmin = <double *> malloc(sizeof(double) * len(temp)) if len(temp) else NULL
         for i in range(self._parameters.zmin_len):
             self._parameters.zmin[i] = temp[i]
         self._free_results()
@@ -2083,7 +2083,7 @@ cdef class Coffe:
             free(self._parameters.zmax)
 
         self._parameters.zmax_len = len(temp)
-        self._parameters.zmax = <double *> malloc(sizeof(double) * len(temp))
+        self._parameters.zmax = <double *> malloc(sizeof(double) * len(temp)) if len(temp) else NULL
         for i in range(self._parameters.zmax_len):
             self._parameters.zmax[i] = temp[i]
         self._free_results()
@@ -2118,7 +2118,7 @@ cdef class Coffe:
             free(self._parameters.density1)
 
         self._parameters.density1_len = len(temp)
-        self._parameters.density1 = <double *> malloc(sizeof(double) * len(temp))
+        self._parameters.density1 = <double *> malloc(sizeof(double) * len(temp)) if len(temp) else NULL
         for i in range(self._parameters.density1_len):
             self._parameters.density1[i] = temp[i]
         self._free_covariance_multipoles()
@@ -2154,7 +2154,7 @@ cdef class Coffe:
             free(self._parameters.density2)
 
         self._parameters.density2_len = len(temp)
-        self._parameters.density2 = <double *> malloc(sizeof(double) * len(temp))
+        self._parameters.density2 = <double *> malloc(sizeof(double) * len(temp)) if len(temp) else NULL
         for i in range(self._parameters.density2_len):
             self._parameters.density2[i] = temp[i]
         self._free_covariance_multipoles()
@@ -2361,7 +2361,7 @@ cdef class Coffe:
             free(self._parameters.pixelsize)
 
         self._parameters.pixelsize_len = len(temp)
-        self._parameters.pixelsize = <double *> malloc(sizeof(double) * len(temp))
+        self._parameters.pixelsize = <double *> malloc(sizeof(double) * len(temp)) if len(temp) else NULL
         for i in range(self._parameters.pixelsize_len):
             self._parameters.pixelsize[i] = temp[i]
         self._free_covariance_multipoles()
@@ -2397,7 +2397,7 @@ cdef class Coffe:
             free(self._parameters.fsky)
 
         self._parameters.fsky_len = len(temp)
-        self._parameters.fsky = <double *> malloc(sizeof(double) * len(temp))
+        self._parameters.fsky = <double *> malloc(sizeof(double) * len(temp)) if len(temp) else NULL
         for i in range(self._parameters.fsky_len):
             self._parameters.fsky[i] = temp[i]
         self._free_covariance_multipoles()
@@ -2433,7 +2433,7 @@ cdef class Coffe:
             free(self._parameters.deltaz)
 
         self._parameters.deltaz_len = len(temp)
-        self._parameters.deltaz = <double *> malloc(sizeof(double) * len(temp))
+        self._parameters.deltaz = <double *> malloc(sizeof(double) * len(temp)) if len(temp) else NULL
         for i in range(self._parameters.deltaz_len):
             self._parameters.deltaz[i] = temp[i]
         self._free_results()
-- 
2.43.0


From c33767aff8c4270c6df6bc543557d57bbdb5b46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:18 +0000
Subject: [PATCH 22/42] fix: keep the default interpolation method if the
 settings file does not name one

---
 src/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 2e7f8f5..4a714ad 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1104,7 +1104,7 @@ int coffe_parser_init(
 
     /* the interpolation method for GSL */
     {
-    int temp;
+    int temp = par->interp_method;
     parse_int(conf, "interpolation", &temp, COFFE_FALSE);
     par->interp_method = (enum coffe_interp1d_type)temp;
     }
-- 
2.43.0


From b983714b8f73a4b2cc9249b8c55ac783a31d9708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:08 +0000
Subject: [PATCH 23/42] fix: report points outside the tables instead of
 terminating the process

---
 python/coffe/coffe.pyx | 23 +++++++++++++++
 src/functions.c        | 67 ++++--------------------------------------
 src/main.c             | 23 +++++++++++++++
 3 files changed, 52 insertions(+), 61 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 88d8866..6517959 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1118,6 +1118,15 @@ cdef class Coffe:
             )
 
 
+    @staticmethod
+    def _check_finite(values):
+        if not np.all(np.isfinite(values)):
+            raise ValueError(
+                "Cannot compute some of the values, the points may not be covered "
+                "by the redshift range of the background or of the biases"
+            )
+
+
     def _balance_content(self):
         """
         Internal function that balances the energy content of dark energy so it all adds up to 1.
@@ -3242,6 +3251,8 @@ cdef class Coffe:
 
         ccoffe.gsl_set_error_handler(default_handler)
 
+        self._check_finite([result])
+
         return result
 
 
@@ -3313,6 +3324,8 @@ cdef class Coffe:
 
         ccoffe.gsl_set_error_handler(default_handler)
 
+        self._check_finite([result])
+
         return result
 
 
@@ -3347,6 +3360,8 @@ cdef class Coffe:
         if not self._multipoles.size or recompute:
             self._multipoles_init()
 
+        self._check_finite([self._multipoles.array[i].value for i in range(self._multipoles.size)])
+
         return np.array([
             Multipoles(
                 z=self._multipoles.array[i].coords.z_mean,
@@ -3388,6 +3403,8 @@ cdef class Coffe:
         if not self._average_multipoles.size or recompute:
             self._average_multipoles_init()
 
+        self._check_finite([self._average_multipoles.array[i].value for i in range(self._average_multipoles.size)])
+
         return np.array([
             AverageMultipoles(
                 z_min=self._average_multipoles.array[i].coords.z_min,
@@ -3431,6 +3448,8 @@ cdef class Coffe:
         if not self._corrfunc.size or recompute:
             self._corrfunc_init()
 
+        self._check_finite([self._corrfunc.array[i].value for i in range(self._corrfunc.size)])
+
         return np.array([
             Corrfunc(
                 z=self._corrfunc.array[i].coords.z_mean,
@@ -3484,6 +3503,8 @@ cdef class Coffe:
             self._covariance_init()
         self._parameters.output_type = temp
 
+        self._check_finite([self._covariance_multipoles.array[i].value for i in range(self._covariance_multipoles.size)])
+
         return np.array([
             Covariance(
                 z=self._covariance_multipoles.array[i].coords.z_mean,
@@ -3538,6 +3559,8 @@ cdef class Coffe:
             self._covariance_init()
         self._parameters.output_type = temp
 
+        self._check_finite([self._average_covariance_multipoles.array[i].value for i in range(self._average_covariance_multipoles.size)])
+
         return np.array([
             AverageCovariance(
                 z_min=self._average_covariance_multipoles.array[i].coords.z_min,
diff --git a/src/functions.c b/src/functions.c
index e868448..d6cdd07 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -1468,18 +1468,8 @@ double functions_nonintegrated(
             }
     }
     else{
-        fprintf(stderr,
-            "ERROR: in %s:%d in function %s, values:\n"
-            "mu = %e\n"
-            "z_mean = %e\n"
-            "chi_mean = %e\n"
-            "sep = %e\n"
-            "z1 = %e\n"
-            "z2 = %e\n"
-            "chi1 = %e\n"
-            "chi2 = %e\n",
-            __FILE__, __LINE__, __func__, mu, z_mean, chi_mean, sep, z1, z2, chi1, chi2);
-        exit(EXIT_FAILURE);
+        /* the point isn't covered by the tables; let the caller handle it */
+        return GSL_NAN;
     }
 }
 
@@ -3426,33 +3416,8 @@ double functions_single_integrated(
         return result;
     }
     else{
-        fprintf(stderr,
-            "ERROR: in %s:%d in function %s, values:\n"
-            "mu = %e\n"
-            "z_mean = %e\n"
-            "chi_mean = %e\n"
-            "sep = %e\n"
-            "z1 = %e\n"
-            "z2 = %e\n"
-            "chi1 = %e\n"
-            "chi2 = %e\n"
-            "costheta = %e\n"
-            "r21 = %e\n"
-            "r22 = %e\n"
-            "z1_const = %e\n"
-            "z2_const = %e\n"
-            "s1, s2 = %e, %e\n"
-            "b1, b2 = %e, %e\n"
-            "x = %e\n",
-            __FILE__,
-            __LINE__,
-            __func__,
-            mu, z_mean, chi_mean, sep,
-            z1, z2, chi1, chi2, costheta,
-            r21, r22, z1_const, z2_const,
-            s1, s2, b1, b2, x
-        );
-        exit(EXIT_FAILURE);
+        /* the point isn't covered by the tables; let the caller handle it */
+        return GSL_NAN;
     }
 }
 
@@ -3990,28 +3955,8 @@ double functions_double_integrated(
         result * pow(COFFE_H0 * par->h, 4);
     }
     else{
-        fprintf(stderr,
-            "ERROR: in %s:%d in function %s, values:\n"
-            "x1 = %e, x2 = %e\n"
-            "r2 = %e\n"
-            "mu = %e\n"
-            "z_mean = %e\n"
-            "chi_mean = %e\n"
-            "sep = %e\n"
-            "z1 = %e\n"
-            "z2 = %e\n"
-            "chi1 = %e\n"
-            "chi2 = %e\n"
-            "lambda1 = %e\n"
-            "lambda2 = %e\n"
-            "ren(sqrt(r2)) = %e\n",
-            __FILE__,
-            __LINE__,
-            __func__, x1, x2, r2,
-            mu, z_mean, chi_mean, sep,
-            z1, z2, chi1, chi2, lambda1, lambda2, ren
-        );
-        exit(EXIT_FAILURE);
+        /* the point isn't covered by the tables; let the caller handle it */
+        return GSL_NAN;
     }
 }
 
diff --git a/src/main.c b/src/main.c
index b633b6e..717cb86 100644
--- a/src/main.c
+++ b/src/main.c
@@ -159,6 +159,29 @@ int main(int argc, char *argv[])
     )
         coffe_covariance_init(&par, &bg, &cov_mp, &cov_ramp);
 
+    {
+        size_t failed = 0;
+        for (size_t i = 0; i < cf.size; ++i)
+            failed += !gsl_finite(cf.array[i].value);
+        for (size_t i = 0; i < mp.size; ++i)
+            failed += !gsl_finite(mp.array[i].value);
+        for (size_t i = 0; i < ramp.size; ++i)
+            failed += !gsl_finite(ramp.array[i].value);
+        for (size_t i = 0; i < cov_mp.size; ++i)
+            failed += !gsl_finite(cov_mp.array[i].value);
+        for (size_t i = 0; i < cov_ramp.size; ++i)
+            failed += !gsl_finite(cov_ramp.array[i].value);
+        if (failed){
+            fprintf(
+                stderr,
+                "ERROR: cannot compute %zu of the requested values "
+                "(some of the points may not be covered by the redshift range of the background or of the biases)\n",
+                failed
+            );
+            exit(EXIT_FAILURE);
+        }
+    }
+
     coffe_output_init(
         &par, &bg,
 #ifdef HAVE_INTEGRALS
-- 
2.43.0


From e2a716a46029b5893ff159ccb12e7c023b7c17e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:54 +0000
Subject: [PATCH 24/42] fix: raise instead of aborting when a function is
 evaluated outside of its range

---
 python/coffe/coffe.pyx | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 6517959..e7da5bf 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -189,7 +189,12 @@ cdef double evaluate_spline(
 
     _check_parameter('x', x, (int, float), x_min, x_max)
 
-    return ccoffe.coffe_interp_spline(interp, x)
+    result = ccoffe.coffe_interp_spline(interp, x)
+
+    if not np.isfinite(result):
+        raise ValueError(f'The function is not defined at {x}')
+
+    return result
 
 
 
@@ -1734,7 +1739,7 @@ cdef class Coffe:
                 f'Cannot find integral with n = {n}, l = {l}'
             )
 
-        return ccoffe.coffe_interp_spline(&result.result, r)
+        return evaluate_spline(&result.result, r)
 
 
     def galaxy_bias1(self, z : float):
@@ -2812,9 +2817,9 @@ cdef class Coffe:
             self._background_init()
 
         return 2 * (
-            ccoffe.coffe_interp_spline(&self._background.comoving_distance, z_mean + deltaz)
+            evaluate_spline(&self._background.comoving_distance, z_mean + deltaz)
             -
-            ccoffe.coffe_interp_spline(&self._background.comoving_distance, z_mean)
+            evaluate_spline(&self._background.comoving_distance, z_mean)
         )
 
 
@@ -2878,9 +2883,9 @@ cdef class Coffe:
             self._background_init()
 
         return (
-            ccoffe.coffe_interp_spline(&self._parameters.power_spectrum, k)
-           *ccoffe.coffe_interp_spline(&self._background.D1, z1)
-           *ccoffe.coffe_interp_spline(&self._background.D1, z2)
+            evaluate_spline(&self._parameters.power_spectrum, k)
+           *evaluate_spline(&self._background.D1, z1)
+           *evaluate_spline(&self._background.D1, z2)
         )
 
 
@@ -2912,8 +2917,8 @@ cdef class Coffe:
 
         if self._parameters.pk_type == ccoffe.COFFE_PK_LINEAR:
             return (
-                ccoffe.coffe_interp_spline(&self._parameters.power_spectrum, k)
-               *ccoffe.coffe_interp_spline(&self._background.D1, z)**2
+                evaluate_spline(&self._parameters.power_spectrum, k)
+               *evaluate_spline(&self._background.D1, z)**2
             )
         return ccoffe.coffe_interp_spline2d(&self._parameters.power_spectrum2d, z, k)
 
@@ -3041,7 +3046,7 @@ cdef class Coffe:
         if not self._background.flag:
             self._background_init()
 
-        return ccoffe.coffe_interp_spline(&self._background.comoving_distance, z)
+        return evaluate_spline(&self._background.comoving_distance, z)
 
 
     def hubble_rate(self, z : float):
@@ -3064,7 +3069,7 @@ cdef class Coffe:
         if not self._background.flag:
             self._background_init()
 
-        return ccoffe.coffe_interp_spline(&self._background.Hz, z)
+        return evaluate_spline(&self._background.Hz, z)
 
 
     def scale_factor(self, z : float):
@@ -3086,7 +3091,7 @@ cdef class Coffe:
         if not self._background.flag:
             self._background_init()
 
-        return ccoffe.coffe_interp_spline(&self._background.a, z)
+        return evaluate_spline(&self._background.a, z)
 
 
     def hubble_rate_conformal(self, z : float):
@@ -3109,7 +3114,7 @@ cdef class Coffe:
         if not self._background.flag:
             self._background_init()
 
-        return ccoffe.coffe_interp_spline(&self._background.conformal_Hz, z)
+        return evaluate_spline(&self._background.conformal_Hz, z)
 
 
     def hubble_rate_conformal_derivative(self, z : float):
@@ -3133,7 +3138,7 @@ cdef class Coffe:
         if not self._background.flag:
             self._background_init()
 
-        return ccoffe.coffe_interp_spline(&self._background.conformal_Hz_prime, z)
+        return evaluate_spline(&self._background.conformal_Hz_prime, z)
 
 
     def growth_factor(self, z : float):
@@ -3155,7 +3160,7 @@ cdef class Coffe:
         if not self._background.flag:
             self._background_init()
 
-        return ccoffe.coffe_interp_spline(&self._background.D1, z)
+        return evaluate_spline(&self._background.D1, z)
 
 
     def growth_rate(self, z : float):
@@ -3178,7 +3183,7 @@ cdef class Coffe:
         if not self._background.flag:
             self._background_init()
 
-        return ccoffe.coffe_interp_spline(&self._background.f, z)
+        return evaluate_spline(&self._background.f, z)
 
 
     def compute_corrfunc(
-- 
2.43.0


From b3d804496c8562d9f88cc95f396e2e5ef9d592e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:54 +0000
Subject: [PATCH 25/42] fix: keep the user's power spectrum when recomputing

---
 python/coffe/coffe.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index e7da5bf..891fc49 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -3014,7 +3014,7 @@ cdef class Coffe:
             x_norm, y_norm, size, self._parameters.interp_method
         )
 
-        self._power_spectrum_flag = 1
+        self._power_spectrum_flag = 2
 
         free(x)
         free(y)
@@ -3586,6 +3586,9 @@ cdef class Coffe:
         )
 
     def _power_spectrum_init(self):
+        # a spectrum which was set by the user isn't something we can recompute
+        if self._power_spectrum_flag == 2:
+            return
         ccoffe.parse_external_power_spectrum(&self._parameters)
         self._power_spectrum_flag = 1
 
-- 
2.43.0


From b758e13360d48ea08020a070b438612a0bf534f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:54 +0000
Subject: [PATCH 26/42] fix: evolve the input power spectrum to z = 0 if it is
 given at another redshift

---
 python/coffe/coffe.pyx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 891fc49..6cc44f9 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -2984,7 +2984,13 @@ cdef class Coffe:
         if k[0] <= 0:
             raise ValueError('The wavenumbers must be positive')
 
-        # TODO error checking for z and rescaling if z > 0
+        _check_parameter('z', z, (int, float), 0, 15)
+
+        if z > 0:
+            # linear evolution to z = 0
+            if not self._background.flag:
+                self._background_init()
+            pk = pk / evaluate_spline(&self._background.D1, z)**2
 
         self._free_power_spectrum()
         self._parameters.k_min = k[0]
-- 
2.43.0


From 6abb9d563fed13aaf8bd21667588007451f0cf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:14 +0000
Subject: [PATCH 27/42] fix: use the full RSD-lensing expression for all |mu| <
 1

The limit of the octopole-free coefficient for parallel lines of sight was used from
|mu| = 0.999 on, which is wrong by up to a factor of fifty; the general expression is
accurate until the lines of sight are parallel to about 1e-8.
---
 src/functions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions.c b/src/functions.c
index d6cdd07..efd1803 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -2186,7 +2186,7 @@ double functions_single_integrated(
                            *coffe_interp_spline(&coffe_find_integral(integral, 0, 2, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r22))/r22/21.
                         )
                     ));
-                if (fabs(mu) < 0.999){
+                if (fabs(mu) < 1 - 1e-8){
 #ifdef HAVE_CLASS
                     if (
                         par->pk_type != COFFE_PK_LINEAR &&
-- 
2.43.0


From aff6b0b642668bfcb7b106706ea75fc611fd0fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:41 +0000
Subject: [PATCH 28/42] fix: tell the integrands which statistic is being
 computed

The flat-sky density-lensing and lensing-lensing terms of the 2PCF and of the
redshift-averaged multipoles were silently left out.
---
 python/coffe/coffe.pyx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 6cc44f9..ae62d2d 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -3238,6 +3238,10 @@ cdef class Coffe:
         cdef ccoffe.gsl_error_handler_t *default_handler = \
             ccoffe.gsl_set_error_handler_off()
 
+        # the integrands depend on the type of output
+        temp = self._parameters.output_type
+        self._parameters.output_type = ccoffe.CORRFUNC
+
         result = ccoffe.coffe_integrate(
             &self._parameters,
             &self._background,
@@ -3260,6 +3264,8 @@ cdef class Coffe:
             ccoffe.DOUBLE_INTEGRATED, ccoffe.CORRFUNC
         )
 
+        self._parameters.output_type = temp
+
         ccoffe.gsl_set_error_handler(default_handler)
 
         self._check_finite([result])
@@ -3611,12 +3617,15 @@ cdef class Coffe:
         )
 
     def _corrfunc_init(self):
+        temp = self._parameters.output_type
+        self._parameters.output_type = ccoffe.CORRFUNC
         ccoffe.coffe_corrfunc_init(
             &self._parameters,
             &self._background,
             &self._integral,
             &self._corrfunc
         )
+        self._parameters.output_type = temp
 
     def _multipoles_init(self):
         ccoffe.coffe_multipoles_init(
@@ -3627,12 +3636,15 @@ cdef class Coffe:
         )
 
     def _average_multipoles_init(self):
+        temp = self._parameters.output_type
+        self._parameters.output_type = ccoffe.AVERAGE_MULTIPOLES
         ccoffe.coffe_average_multipoles_init(
             &self._parameters,
             &self._background,
             &self._integral,
             &self._average_multipoles
         )
+        self._parameters.output_type = temp
 
     def _covariance_init(self):
         ccoffe.coffe_covariance_init(
-- 
2.43.0


From 7645fb652282003edd72a1ec624f94cbea8d8c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:57 +0000
Subject: [PATCH 29/42] fix: refuse flat-sky multipoles whose integrals are not
 tabulated

They dereferenced a null pointer.
---
 python/coffe/coffe.pyx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index ae62d2d..7ecc29d 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -3314,6 +3314,17 @@ cdef class Coffe:
         _check_parameter('r', r, (int, float), 0, 1500)
         _check_parameter('l', l, (int,), 0, 10)
 
+        # the flat-sky integrals are only tabulated for the multipoles in `l`
+        if (
+            l % 2 == 0 and l not in self.l and self._parameters.correlation_contrib.len and (
+                (self._parameters.flatsky_nonlocal and not self._parameters.only_cross_correlations) or
+                (self._parameters.flatsky_local_nonlocal and self._parameters.correlation_contrib.den)
+            )
+        ):
+            raise ValueError(
+                f'The flat-sky multipole l = {l} can only be computed if {l} is in `l`'
+            )
+
         cdef ccoffe.gsl_error_handler_t *default_handler = \
             ccoffe.gsl_set_error_handler_off()
 
-- 
2.43.0


From 0b5a1d8872ea29d544cd87ff3ded08be490fbcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:24 +0000
Subject: [PATCH 30/42] fix: use the pixel size of each redshift bin in the
 binned covariance

The integrals were computed once with the pixel size of the first bin and
reused for all of them; and with a nonlinear spectrum, the number of bins of
the averaged covariance was taken to be the number of mean redshifts.
---
 src/covariance.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/covariance.c b/src/covariance.c
index 467f176..98a336c 100644
--- a/src/covariance.c
+++ b/src/covariance.c
@@ -522,9 +522,12 @@ int coffe_covariance_init(
         double *separations = (double *)coffe_malloc(sizeof(double) * par->sep_len);
         for (size_t i = 0; i < par->sep_len; ++i)
             separations[i] = par->sep[i];
+        /* one set of integrals per redshift bin is needed if they depend on
+        the redshift or on the pixel size of the bin, otherwise one is enough */
+        const int integrals_per_bin = par->pk_type || par->covariance_window;
         const size_t redshifts_to_allocate =
             /* trigraph */
-            par->pk_type ? par->z_mean_len : 1;
+            integrals_per_bin ? par->density1_len : 1;
         /* allocating memory for the integrals of P(k) and P^2(k) (D_l1l2 and G_l1l2) */
         /* why triple pointers, you ask? First index is redshift, second is multipole, third are separations */
         double ***integral_pk =
@@ -567,7 +570,11 @@ int coffe_covariance_init(
                     pk_type,
 
                     /* trigraph */
-                    par->pk_type ? par->z_mean[index_redshift] : 0,
+                    par->output_type == COVARIANCE_MULTIPOLES
+                    ?
+                    par->z_mean[index_redshift]
+                    :
+                    (par->zmin[index_redshift] + par->zmax[index_redshift]) / 2.,
                     ((struct nonlinear *)par->class_struct.nonlinear)->index_pk_total,
                     pk,
                     NULL
@@ -996,7 +1003,7 @@ int coffe_covariance_init(
                        *(par->pk_type ? 1 : D1z * D1z)
                         /* trigraph */
                        *(
-                            par->pk_type
+                            integrals_per_bin
                             ?
                             integral_pk[k][i*par->multipole_values_len + j][par->sep_len*n + m]
                             :
@@ -1013,7 +1020,7 @@ int coffe_covariance_init(
                         /* TODO fix this abomination */
                         /* trigraph */
                        *(
-                            par->pk_type
+                            integrals_per_bin
                             ?
                             integral_pk2[k][i*par->multipole_values_len + j][par->sep_len*n + m]
                             :
-- 
2.43.0


From ef2095a586f2a347626af9f84b4803568e26029f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:14 +0000
Subject: [PATCH 31/42] fix: parity of the second Wick contraction in the
 covariance of odd multipoles

The Poisson part already has the factor (-1)^l2 for the exchanged pair, the
cosmic and mixed parts had (-1)^cnt_l2 (always one) or nothing, so that the
covariance of, for instance, the dipole of an auto-correlation (identically
zero) did not vanish.
---
 src/covariance.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/covariance.c b/src/covariance.c
index 98a336c..24d15c5 100644
--- a/src/covariance.c
+++ b/src/covariance.c
@@ -888,7 +888,7 @@ int coffe_covariance_init(
                                par->covariance_pop4, galaxy_bias, growth_rate,
                                cnt_l2)
                             +
-                            coffe_sign(cnt_l2)
+                            coffe_sign(l2)
                            *covariance_coefficient_pair(par->covariance_pop1,
                                par->covariance_pop4, galaxy_bias, growth_rate,
                                cnt_l1)
@@ -922,7 +922,8 @@ int coffe_covariance_init(
                             )
                            /par->density1[k]
                             +
-                            covariance_coefficient_pair(par->covariance_pop1,
+                            coffe_sign(l2)
+                           *covariance_coefficient_pair(par->covariance_pop1,
                                 par->covariance_pop4, galaxy_bias, growth_rate,
                                 cnt)
                            *coffe_kronecker_delta(
@@ -931,7 +932,8 @@ int coffe_covariance_init(
                             )
                            /par->density2[k]
                             +
-                            covariance_coefficient_pair(par->covariance_pop2,
+                            coffe_sign(l2)
+                           *covariance_coefficient_pair(par->covariance_pop2,
                                 par->covariance_pop3, galaxy_bias, growth_rate,
                                 cnt)
                            *coffe_kronecker_delta(
-- 
2.43.0


From 0dd345cc2acbb30d146dd9fb899b657cd5480e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:15 +0000
Subject: [PATCH 32/42] fix: cancellations in the windowed spherical Bessel
 functions

For l = 6 (and to a lesser degree l = 3, 4, 5) the closed expressions lose all
digits for small arguments, which made the binned covariance wrong by up to a
factor of a few; use the Taylor expansion there.
---
 src/covariance.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/covariance.c b/src/covariance.c
index 24d15c5..7ca3020 100644
--- a/src/covariance.c
+++ b/src/covariance.c
@@ -202,24 +202,38 @@ static double integral_power_spherical_bessel1_unit(
         fprintf(stderr, "WARNING: n = %d not implemented\n", n);
         return 0;
     }
+    /* the expressions below suffer from cancellations for small arguments, so
+    we use the Taylor expansion of x^2 j_l(x) there */
+    if (l >= 0 && l <= 6 && fabs(x) < 3){
+        double term = pow(x, l + 3);
+        for (int i = 1; i <= l; ++i)
+            term /= 2. * i + 1;
+        double result = term / (l + 3);
+        for (int i = 1; i < 20; ++i){
+            term *= -x * x / (2. * i) / (2. * l + 2. * i + 1);
+            result += term / (l + 3 + 2. * i);
+        }
+        return result;
+    }
+    /* integration constants chosen so that the value at zero is zero */
     switch (l){
         case 0:
             return -x * cos(x) + sin(x);
             break;
         case 1:
-            return - 2. * cos(x) - x * sin(x);
+            return 2. - 2. * cos(x) - x * sin(x);
             break;
         case 2:
             return x * cos(x) - 4. * sin(x) + 3. * gsl_sf_Si(x);
             break;
         case 3:
-            return 7. * cos(x) + ((-15. + x * x) * sin(x)) / x;
+            return 8. + 7. * cos(x) + ((-15. + x * x) * sin(x)) / x;
             break;
         case 4:
             return ((105. / x - 2. * x) * cos(x) + (22. - 105. / pow(x, 2)) * sin(x) + 15. * gsl_sf_Si(x)) / 2.;
             break;
         case 5:
-            return ((315 * x - 16 * pow(x, 3)) * cos(x) - (315 - 105 * pow(x, 2) + pow(x, 4)) * sin(x)) / pow(x, 3);
+            return 16. + ((315 * x - 16 * pow(x, 3)) * cos(x) - (315 - 105 * pow(x, 2) + pow(x, 4)) * sin(x)) / pow(x, 3);
             break;
         case 6:
             return (
-- 
2.43.0


From 0f2d8540c1021ed3bf3b3a50fab3a1c9bde0696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:03 +0000
Subject: [PATCH 33/42] fix: don't accept some of the values of
 covariance_populations before rejecting the others

The values were converted to integers for the check, but assigned one by one
without the conversion.
---
 python/coffe/coffe.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 7ecc29d..de9f4cb 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -2196,17 +2196,17 @@ cdef class Coffe:
             raise TypeError(f'The value {value} is not iterable') from err
 
         try:
-            temp = [int(_) for _ in value]
-        except TypeError as err:
+            temp = [_.__index__() for _ in value]
+        except AttributeError as err:
             raise TypeError('Cannot convert all values to integers') from err
 
-        if len(value) != 4:
+        if len(temp) != 4:
             raise ValueError('The array for setting `covariance_populations` must have length 4')
 
-        if any(_ not in [1, 2, 3, 4] for _ in value):
+        if any(_ not in [1, 2, 3, 4] for _ in temp):
             raise ValueError('The values for `covariance_populations` must be one of: [1, 2, 3, 4]')
 
-        self._parameters.covariance_pop1, self._parameters.covariance_pop2, self._parameters.covariance_pop3, self._parameters.covariance_pop4 = value
+        self._parameters.covariance_pop1, self._parameters.covariance_pop2, self._parameters.covariance_pop3, self._parameters.covariance_pop4 = temp
         self._free_covariance_multipoles()
         self._free_average_covariance_multipoles()
 
-- 
2.43.0


From 34305ca649544efe90e51ce2254e6b966c3c5cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:03 +0000
Subject: [PATCH 34/42] fix: don't reject a baryon fraction because of the CDM
 fraction it replaces

The total matter fraction is kept, so the dark energy fraction doesn't change.
---
 python/coffe/coffe.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index de9f4cb..9040fa5 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1256,7 +1256,7 @@ cdef class Coffe:
         _check_parameter('omega_baryon', value, (int, float), -100, 100)
         if value != self.omega_baryon:
             # we set the value, rebalance the Omega budget, and free memory
-            self._check_omegas(value, self.omega_cdm, self.omega_gamma)
+            self._check_omegas(value, self.omega_gamma)
             self._parameters.Omega0_baryon = value / self._coeff
             self._parameters.Omega0_cdm = self._parameters.Omega0_m - self._parameters.Omega0_baryon - self._parameters.Omega0_nu
             self._balance_content()
-- 
2.43.0


From 73e3a57c28d635a140da1d8ceeb7ff8a2b587bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:22 +0000
Subject: [PATCH 35/42] fix: don't reject valid density fractions depending on
 the order in which they are set

A dictionary of parameters or a settings file with e.g. omega_m = 1 and
omega_gamma = 0 couldn't be read, or only depending on the hash seed.
---
 python/coffe/coffe.pyx | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 9040fa5..6d2f500 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -727,9 +727,13 @@ cdef class Coffe:
             "k_max",
             "YHe",
         }
-        for option in options_float:
-            if option in config:
-                setattr(cosmo, option, config.getfloat(option))
+        cosmo.set_parameters(
+            **{
+                option: config.getfloat(option)
+                for option in options_float
+                if option in config
+            }
+        )
 
         options_int = {
             "has_density",
@@ -1190,7 +1194,12 @@ cdef class Coffe:
                     f'The parameter {key} is not a valid parameter in COFFE.'
                 )
 
-        for key in value:
+        # the density fractions which decrease are set before the ones which
+        # increase, otherwise their sum could exceed 1 along the way
+        for key in sorted(
+            value,
+            key=lambda _: _.startswith('omega_') and value[_] > getattr(self, _)
+        ):
             setattr(self, key, value[key])
 
 
-- 
2.43.0


From 1009c29a51564c5a35f3feb623c405235370129a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:22 +0000
Subject: [PATCH 36/42] fix: don't ignore a constant bias in a settings file
 without the unused input_*_bias option

---
 python/coffe/coffe.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 6d2f500..2070f33 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -795,7 +795,7 @@ cdef class Coffe:
                             )
                         )
                     )
-                elif f"input_{bias}_bias{population}" in config:
+                elif f"{bias}_bias{population}" in config:
                     getattr(cosmo, f"set_{bias}_bias{population}")(
                         np.linspace(0, 10, 100),
                         [config.getfloat(f"{bias}_bias{population}")] * 100,
@@ -822,7 +822,7 @@ cdef class Coffe:
                         )
                     )
                 )
-            elif f"input_galaxy_bias{population}" in config:
+            elif f"galaxy_bias{population}" in config:
                 getattr(cosmo, f"set_galaxy_bias{population}")(
                     np.linspace(0, 10, 100),
                     [config.getfloat(f"galaxy_bias{population}")] * 100,
-- 
2.43.0


From af83a41ba9e003239cb3123a51609f2f42495093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:37 +0000
Subject: [PATCH 37/42] fix: only use the listed contributions of the legacy
 option correlation_contributions

The density, which is on by default, was always included.
---
 python/coffe/coffe.pyx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 2070f33..06e51e0 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -677,8 +677,7 @@ cdef class Coffe:
                 'g5' : 'has_g5',
             }
             for key, value in mapping.items():
-                if key in contributions:
-                    setattr(cosmo, value, True)
+                setattr(cosmo, value, key in contributions)
 
         options_float_array = {
             "sep",
-- 
2.43.0


From 53d3d09dda1f522b1e73816be10e3abe8650b8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:44 +0000
Subject: [PATCH 38/42] fix: include the growth in the covariance whenever the
 spectrum is the one today

Without CLASS, pk_type doesn't change the spectrum, only the growth was missing.
---
 src/covariance.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/covariance.c b/src/covariance.c
index 7ca3020..35074dc 100644
--- a/src/covariance.c
+++ b/src/covariance.c
@@ -538,7 +538,12 @@ int coffe_covariance_init(
             separations[i] = par->sep[i];
         /* one set of integrals per redshift bin is needed if they depend on
         the redshift or on the pixel size of the bin, otherwise one is enough */
-        const int integrals_per_bin = par->pk_type || par->covariance_window;
+#ifdef HAVE_CLASS
+        const int spectrum_at_redshift = par->have_class && par->pk_type != COFFE_PK_LINEAR;
+#else
+        const int spectrum_at_redshift = 0;
+#endif
+        const int integrals_per_bin = spectrum_at_redshift || par->covariance_window;
         const size_t redshifts_to_allocate =
             /* trigraph */
             integrals_per_bin ? par->density1_len : 1;
@@ -1016,7 +1021,7 @@ int coffe_covariance_init(
                         coffe_sign((l2 - l1) / 2)
                        *coffe_sign(l1 + l2)
                         /* trigraph */
-                       *(par->pk_type ? 1 : D1z * D1z)
+                       *(spectrum_at_redshift ? 1 : D1z * D1z)
                         /* trigraph */
                        *(
                             integrals_per_bin
@@ -1032,7 +1037,7 @@ int coffe_covariance_init(
                         par->covariance_cosmic ?
                         coffe_sign((l2 - l1) / 2) *
                         /* trigraph */
-                        (par->pk_type ? 1 : D1z * D1z * D1z * D1z)
+                        (spectrum_at_redshift ? 1 : D1z * D1z * D1z * D1z)
                         /* TODO fix this abomination */
                         /* trigraph */
                        *(
-- 
2.43.0


From f319f6f7b5c5ba301623b21586ad23b3cf21576c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:00 +0000
Subject: [PATCH 39/42] fix: don't use the spectrum as a function of redshift
 when there is none

Only CLASS provides it, power_spectrum crashed for the other values of pk_type.
---
 python/coffe/coffe.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 06e51e0..4e99cdf 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -2923,7 +2923,11 @@ cdef class Coffe:
         if not self._background.flag:
             self._background_init()
 
-        if self._parameters.pk_type == ccoffe.COFFE_PK_LINEAR:
+        if (
+            self._parameters.pk_type == ccoffe.COFFE_PK_LINEAR
+            # only CLASS provides the spectrum as a function of redshift
+            or self._parameters.power_spectrum2d.spline == NULL
+        ):
             return (
                 evaluate_spline(&self._parameters.power_spectrum, k)
                *evaluate_spline(&self._background.D1, z)**2
-- 
2.43.0


From af2716f8109de1bb36790d460f6924b69229f97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:34 +0000
Subject: [PATCH 40/42] fix: reject numbers of sampling points which end the
 process

With too few points to interpolate or to transform, or with an odd number of
them for the 2D transform, the interpreter crashed or exited.
---
 python/coffe/coffe.pyx | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 4e99cdf..e923cf4 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -531,7 +531,8 @@ cdef class Coffe:
     cdef ccoffe.coffe_covariance_array_t _covariance_multipoles
     cdef ccoffe.coffe_average_covariance_array_t _average_covariance_multipoles
     cdef int _power_spectrum_flag
-    # the max size allowed for setting the various *_sampling parameters
+    # the min and max size allowed for setting the various *_sampling parameters
+    cdef size_t _min_size
     cdef size_t _max_size
 
     def __cinit__(self, **kwargs):
@@ -546,6 +547,7 @@ cdef class Coffe:
         # disable paralellization in Cuba, leave in only the OpenMP one
         os.environ['CUBACORES'] = '0'
 
+        self._min_size = 10
         self._max_size = 2147483647
 
         ccoffe.coffe_parse_default_parameters(&self._parameters)
@@ -1682,7 +1684,7 @@ cdef class Coffe:
             "integrals_fftlog_sampling",
             value,
             int,
-            0,
+            self._min_size,
             1000000,
         )
 
@@ -2313,9 +2315,11 @@ cdef class Coffe:
             "covariance_integration_sampling",
             value,
             int,
-            0,
+            self._min_size,
             1000000,
         )
+        if value % 2:
+            raise ValueError('The number of samples must be even')
 
         self._parameters.covariance_integration_bins = int(value)
         self._free_covariance_multipoles()
@@ -2524,7 +2528,7 @@ cdef class Coffe:
     @integration_sampling.setter
     def integration_sampling(self, value):
         # the latter is at least the size of a long
-        _check_parameter('integration_sampling', value, int, 0, self._max_size)
+        _check_parameter('integration_sampling', value, int, self._min_size, self._max_size)
 
         self._parameters.integration_bins = value
         self._free_corrfunc()
@@ -2543,7 +2547,7 @@ cdef class Coffe:
 
     @background_sampling.setter
     def background_sampling(self, value):
-        _check_parameter('background_sampling', value, int, 0, self._max_size)
+        _check_parameter('background_sampling', value, int, self._min_size, self._max_size)
 
         self._parameters.background_bins = value
         self._free_background()
-- 
2.43.0


From 9f842fbe838e4f5d13b264ef0c260600e159d539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:34 +0000
Subject: [PATCH 41/42] fix: reject a vanishing Hubble rate or smallest
 wavenumber

The former was stored before the division by zero was noticed, and the latter
ended the process, as the wavenumbers are sampled logarithmically.
---
 python/coffe/coffe.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index e923cf4..4746ed6 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1311,6 +1311,8 @@ cdef class Coffe:
     @h.setter
     def h(self, value):
         _check_parameter('h', value, (int, float), 0, 100)
+        if value == 0:
+            raise ValueError('The Hubble rate must be positive')
         if value != self.h:
             # setting the old value equal to the new value of h
             self._parameters.h = value
@@ -2951,6 +2953,8 @@ cdef class Coffe:
     @k_min.setter
     def k_min(self, value):
         _check_parameter('k_min', value, (int, float), 0, 1e-3)
+        if value == 0:
+            raise ValueError('The smallest wavenumber must be positive')
         self._parameters.k_min = value
         self._parameters.k_min_norm = value
         self._free_except_parameters()
-- 
2.43.0


From 2ac1ebb02ef27a909bd4c41cdb671cfe43aa06e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:41 +0000
Subject: [PATCH 42/42] fix: refuse a power spectrum whose range of wavenumbers
 ends the process

The FFTLog taper is undefined when the wavenumbers span less than half a
decade, and the powers of the wavenumbers over- or underflow when they are
extreme; both ended the process.
---
 python/coffe/coffe.pyx | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 4746ed6..08e0e32 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -3001,8 +3001,18 @@ cdef class Coffe:
         """
         # value checking
         k, pk = _check_sampling(k, pk)
-        if k[0] <= 0:
-            raise ValueError('The wavenumbers must be positive')
+        # the Fourier transforms take powers of the wavenumbers, which should
+        # stay well within the range of floating point numbers
+        if k[0] < 1e-12 or k[-1] > 1e12:
+            raise ValueError(
+                'The wavenumbers must be positive, and in the range '
+                '[1e-12, 1e12] 1/Mpc'
+            )
+        # the Fourier transforms taper the first and the last fifth of a decade
+        if k[-1] < 10 * k[0]:
+            raise ValueError(
+                'The wavenumbers must span at least one decade'
+            )
 
         _check_parameter('z', z, (int, float), 0, 15)
 
-- 
2.43.0

