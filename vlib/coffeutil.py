"""Helpers used inside workers (the coffe module is the one under test)."""
import numpy as np

from . import oracle as O

FLAGS = {"den": "has_density", "rsd": "has_rsd", "d1": "has_d1", "d2": "has_d2", "g1": "has_g1", "g2": "has_g2",
         "g3": "has_g3", "g4": "has_g4", "g5": "has_g5", "len": "has_lensing"}


def make(names=(), cosmo=None, **kw):
    import coffe
    d = dict(omega_cdm=0.25, omega_baryon=0.05, h=0.67)
    d.update(cosmo or {})
    d.update(kw)
    d.update({FLAGS[n]: True for n in names})
    return coffe.Coffe(**d)


def set_names(c, names):
    for k, v in FLAGS.items():
        setattr(c, v, k in names)


def background(c):
    return O.Background(c.omega_cdm, c.omega_baryon, c.omega_gamma, c.omega_nu if hasattr(c, "omega_nu") else 0.0,
                        c.w0, c.wa, c.h)


def lookup(c):
    """Vectorised look-up of the library's own Fourier-Bessel integrals."""
    def f(n, l, r):
        r = np.asarray(r, float)
        return np.array([c.integral(r=float(x), n=n, l=l) for x in r.ravel()]).reshape(r.shape)
    return f


def renormalization(k, p, kmin, kmax):
    """int P/k^2 j0(k x1) j0(k x2) dk / 2 pi^2 by direct quadrature of the table"""
    from scipy.interpolate import Akima1DInterpolator, CubicSpline
    sp = CubicSpline(np.log(k), np.log(p))
    kk, w = [], []
    # dk panels: fine enough for k*chi up to the point where the integrand has decayed
    edges = np.concatenate([np.geomspace(kmin, 1e-3, 30), np.arange(1e-3 + 2e-4, 0.12, 2e-4), np.geomspace(0.121, kmax, 400)])
    x, ww = np.polynomial.legendre.leggauss(10)
    a, b = edges[:-1, None], edges[1:, None]
    kk = (0.5 * (b - a) * x + 0.5 * (a + b)).ravel()
    w = (0.5 * (b - a) * ww).ravel()
    wt = w * np.exp(sp(np.log(kk))) / kk ** 2 / (2 * np.pi ** 2)

    def one(c1, c2):
        return float(np.sum(wt * np.sinc(kk * c1 / np.pi) * np.sinc(kk * c2 / np.pi)))

    return np.vectorize(one)


def fast_lookup(c, divergent=False, rmax=19000.0):
    """The library's Fourier-Bessel integrals, sampled once and interpolated (cubic in log r)."""
    from scipy.interpolate import CubicSpline
    lo = 2e-3
    r = np.concatenate([np.geomspace(lo, 3, 900), np.geomspace(3.003, 600, 2600), np.geomspace(600.5, rmax, 900)])
    lr = np.log(r)
    tables = {}

    def f(n, l, x):
        if (n, l) not in tables:
            tables[(n, l)] = CubicSpline(lr, [c.integral(r=float(v), n=n, l=l) for v in r])
        x = np.asarray(x, float)
        return tables[(n, l)](np.log(np.maximum(x, lo)))
    return f
