/* What the libraries we do not compile (GSL, FFTW) do to memory which callers may share, restated
   as accesses the sanitizer can see.  Each wrapper touches exactly what the real function is
   documented (or, for the accelerator, known) to read and write, and then calls it. */
#include <gsl/gsl_errno.h>
#include <gsl/gsl_interp.h>
#include <gsl/gsl_rng.h>
#include <gsl/gsl_spline.h>
#include <gsl/gsl_spline2d.h>
#include <fftw3.h>

static __thread volatile double sink;

static void lookup(gsl_interp_accel *acc)
{
    /* the accelerator remembers where the last point was found */
    if (acc)
        *(volatile size_t *)&acc->cache = acc->cache;
}

static void table(const double *x, const double *y, size_t n)
{
    if (x && y && n)
        sink = ((const volatile double *)x)[0] + ((const volatile double *)y)[n - 1];
}

double __real_gsl_spline_eval(const gsl_spline *s, double x, gsl_interp_accel *acc);
double __wrap_gsl_spline_eval(const gsl_spline *s, double x, gsl_interp_accel *acc)
{
    table(s->x, s->y, s->size); lookup(acc);
    return __real_gsl_spline_eval(s, x, acc);
}

double __real_gsl_spline_eval_deriv(const gsl_spline *s, double x, gsl_interp_accel *acc);
double __wrap_gsl_spline_eval_deriv(const gsl_spline *s, double x, gsl_interp_accel *acc)
{
    table(s->x, s->y, s->size); lookup(acc);
    return __real_gsl_spline_eval_deriv(s, x, acc);
}

double __real_gsl_spline_eval_deriv2(const gsl_spline *s, double x, gsl_interp_accel *acc);
double __wrap_gsl_spline_eval_deriv2(const gsl_spline *s, double x, gsl_interp_accel *acc)
{
    table(s->x, s->y, s->size); lookup(acc);
    return __real_gsl_spline_eval_deriv2(s, x, acc);
}

double __real_gsl_spline_eval_integ(const gsl_spline *s, double a, double b, gsl_interp_accel *acc);
double __wrap_gsl_spline_eval_integ(const gsl_spline *s, double a, double b, gsl_interp_accel *acc)
{
    table(s->x, s->y, s->size); lookup(acc);
    return __real_gsl_spline_eval_integ(s, a, b, acc);
}

int __real_gsl_spline_eval_e(const gsl_spline *s, double x, gsl_interp_accel *acc, double *y);
int __wrap_gsl_spline_eval_e(const gsl_spline *s, double x, gsl_interp_accel *acc, double *y)
{
    table(s->x, s->y, s->size); lookup(acc);
    return __real_gsl_spline_eval_e(s, x, acc, y);
}

double __real_gsl_interp_eval(const gsl_interp *i, const double xa[], const double ya[], double x, gsl_interp_accel *acc);
double __wrap_gsl_interp_eval(const gsl_interp *i, const double xa[], const double ya[], double x, gsl_interp_accel *acc)
{
    table(xa, ya, i->size); lookup(acc);
    return __real_gsl_interp_eval(i, xa, ya, x, acc);
}

size_t __real_gsl_interp_accel_find(gsl_interp_accel *acc, const double xa[], size_t n, double x);
size_t __wrap_gsl_interp_accel_find(gsl_interp_accel *acc, const double xa[], size_t n, double x)
{
    table(xa, xa, n); lookup(acc);
    return __real_gsl_interp_accel_find(acc, xa, n, x);
}

int __real_gsl_interp_accel_reset(gsl_interp_accel *acc);
int __wrap_gsl_interp_accel_reset(gsl_interp_accel *acc)
{
    lookup(acc);
    return __real_gsl_interp_accel_reset(acc);
}

double __real_gsl_spline2d_eval(const gsl_spline2d *s, double x, double y, gsl_interp_accel *xacc, gsl_interp_accel *yacc);
double __wrap_gsl_spline2d_eval(const gsl_spline2d *s, double x, double y, gsl_interp_accel *xacc, gsl_interp_accel *yacc)
{
    table(s->xarr, s->yarr, 1); lookup(xacc); lookup(yacc);
    return __real_gsl_spline2d_eval(s, x, y, xacc, yacc);
}

int __real_gsl_spline2d_eval_e(const gsl_spline2d *s, double x, double y, gsl_interp_accel *xacc, gsl_interp_accel *yacc, double *z);
int __wrap_gsl_spline2d_eval_e(const gsl_spline2d *s, double x, double y, gsl_interp_accel *xacc, gsl_interp_accel *yacc, double *z)
{
    table(s->xarr, s->yarr, 1); lookup(xacc); lookup(yacc);
    return __real_gsl_spline2d_eval_e(s, x, y, xacc, yacc, z);
}

/* the planner of FFTW has state of its own and may be used by one thread at a time; executing a plan is fine */
static volatile int planner;
static volatile int handler;

fftw_plan __real_fftw_plan_dft_1d(int n, fftw_complex *in, fftw_complex *out, int sign, unsigned flags);
fftw_plan __wrap_fftw_plan_dft_1d(int n, fftw_complex *in, fftw_complex *out, int sign, unsigned flags)
{
    planner = planner + 1;
    return __real_fftw_plan_dft_1d(n, in, out, sign, flags);
}

fftw_plan __real_fftw_plan_dft_r2c_1d(int n, double *in, fftw_complex *out, unsigned flags);
fftw_plan __wrap_fftw_plan_dft_r2c_1d(int n, double *in, fftw_complex *out, unsigned flags)
{
    planner = planner + 1;
    return __real_fftw_plan_dft_r2c_1d(n, in, out, flags);
}

fftw_plan __real_fftw_plan_dft_c2r_1d(int n, fftw_complex *in, double *out, unsigned flags);
fftw_plan __wrap_fftw_plan_dft_c2r_1d(int n, fftw_complex *in, double *out, unsigned flags)
{
    planner = planner + 1;
    return __real_fftw_plan_dft_c2r_1d(n, in, out, flags);
}

fftw_plan __real_fftw_plan_dft_r2c_2d(int n, int m, double *in, fftw_complex *out, unsigned flags);
fftw_plan __wrap_fftw_plan_dft_r2c_2d(int n, int m, double *in, fftw_complex *out, unsigned flags)
{
    planner = planner + 1;
    return __real_fftw_plan_dft_r2c_2d(n, m, in, out, flags);
}

fftw_plan __real_fftw_plan_dft_c2r_2d(int n, int m, fftw_complex *in, double *out, unsigned flags);
fftw_plan __wrap_fftw_plan_dft_c2r_2d(int n, int m, fftw_complex *in, double *out, unsigned flags)
{
    planner = planner + 1;
    return __real_fftw_plan_dft_c2r_2d(n, m, in, out, flags);
}

void __real_fftw_destroy_plan(fftw_plan p);
void __wrap_fftw_destroy_plan(fftw_plan p)
{
    planner = planner + 1;
    __real_fftw_destroy_plan(p);
}

gsl_error_handler_t * __real_gsl_set_error_handler_off(void);
gsl_error_handler_t * __wrap_gsl_set_error_handler_off(void)
{
    handler = handler + 1;
    return __real_gsl_set_error_handler_off();
}

gsl_error_handler_t * __real_gsl_set_error_handler(gsl_error_handler_t *h);
gsl_error_handler_t * __wrap_gsl_set_error_handler(gsl_error_handler_t *h)
{
    handler = handler + 1;
    return __real_gsl_set_error_handler(h);
}
