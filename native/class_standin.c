/*
 * Stand-in for the CLASS Boltzmann code, which is not installed here: an
 * analytic linear spectrum that depends on every cosmological parameter CLASS
 * would see, so that the code around it (cache invalidation, recomputation
 * after a parameter change) can be driven. Weak, so a real one would win.
 */
#include <stdlib.h>
#include <math.h>
#include "common.h"
#include "parser.h"

__attribute__((weak)) int parse_external_power_spectrum(coffe_parameters_t *par)
{
    coffe_free_spline(&par->power_spectrum);
    coffe_free_spline(&par->power_spectrum_norm);
    enum { N = 400 };
    double *k = malloc(sizeof(double) * N), *pk = malloc(sizeof(double) * N);
    const double lo = log(par->k_min * 0.99), hi = log(par->k_max * 1.01);
    const double om = par->Omega0_cdm + par->Omega0_baryon + par->Omega0_nu;
    const double g = om * par->h * par->h * exp(-par->Omega0_baryon * (1 + sqrt(2 * par->h) / om))
        * pow(2.7255 / par->T_cmb, 2) / (1 + 0.05 * (par->N_ur - 2));
    const double amp = 2.2e7 * (par->A_s > 1e-14 ? par->A_s / 2.1e-9 : pow(par->sigma8 / 0.8156, 2)) * pow(1 + par->w0 + 1 + 0.3 * par->wa > 0.1 ? 1 + 0.1 * (par->w0 + 1) + 0.03 * par->wa : 1, 2);
    for (int i = 0; i < N; ++i){
        k[i] = exp(lo + (hi - lo) * i / (N - 1));
        const double q = k[i] / g;
        const double t = log(1 + 2.34 * q) / (2.34 * q)
            * pow(1 + 3.89 * q + pow(16.1 * q, 2) + pow(5.46 * q, 3) + pow(6.71 * q, 4), -0.25);
        pk[i] = amp * pow(k[i] / 0.05, par->n_s) * 0.05 * t * t * exp(-k[i] * par->inv_k_window);
        if (par->have_window)
            pk[i] *= pow(coffe_resolution_window(par->window_size * k[i]), 2);
    }
    coffe_init_spline(&par->power_spectrum, k, pk, N, par->interp_method);
    coffe_init_spline(&par->power_spectrum_norm, k, pk, N, par->interp_method);
    free(k);
    free(pk);
    return EXIT_SUCCESS;
}
