"""Workload generator and in-worker evaluation shared by the two-point checks (C03-C05, C08, C09, ...)."""
import numpy as np

from . import oracle as O


def spectrum(rng, kind=None):
    """parameters of a spectrum table"""
    # the transform has an absolute error of the order of what is left at the upper edge
    kmax = float(rng.uniform(2, 6))
    return dict(nk=int(rng.choice([150, 300])), kmax=kmax, cut=min(float(rng.uniform(0.3, 0.8)), kmax / 5),
                om=float(rng.uniform(0.2, 0.4)), h=float(rng.uniform(0.6, 0.8)), ns=float(rng.uniform(0.9, 1.0)),
                amp=float(10 ** rng.uniform(6, 7)))


def spectrum_table(d):
    k = np.geomspace(2e-5, d["kmax"], d["nk"])
    return k, O.bbks(k, omega_m=d["om"], h=d["h"], n_s=d["ns"], amp=d["amp"]) * np.exp(-(k / d["cut"]) ** 2) / (1 + (1e-4 / k) ** 4)


def cosmology(rng, simple=False):
    om = float(rng.uniform(0.2, 0.45))
    s = [["omega_m", om], ["omega_baryon", float(rng.uniform(0.1, 0.25) * om)], ["h", float(rng.uniform(0.55, 0.8))]]
    if not simple:
        if rng.random() < 0.6:
            s.append(["w0", float(rng.uniform(-1.3, -0.7))])
        if rng.random() < 0.5:
            s.append(["wa", float(rng.uniform(-0.5, 0.3))])
        if rng.random() < 0.4:
            s.append(["omega_gamma", float(rng.choice([0.0, 2e-3]))])
        if rng.random() < 0.3:
            s.append(["m_ncdm", float(rng.uniform(0.05, 0.6))])
    return s


BIAS = {"g": "galaxy", "s": "magnification", "e": "evolution"}


def biases(rng, equal=False):
    """six polynomials in z: {'g1': (c0, c1, c2)...}"""
    out = {}
    for kind, (a, b) in (("g", (0.5, 2.5)), ("s", (-0.5, 1.5)), ("e", (-2.0, 2.5))):
        for pop in (1, 2):
            if equal and pop == 2:
                out[kind + "2"] = out[kind + "1"]
                continue
            out[kind + str(pop)] = (float(rng.uniform(a, b)), float(rng.uniform(-0.3, 0.5)), float(rng.uniform(-0.02, 0.03)))
    return out


ZS = np.linspace(0, 15, 61)


def poly(c):
    return lambda z: c[0] + c[1] * np.asarray(z, float) + c[2] * np.asarray(z, float) ** 2


def set_biases(c, b):
    for key, coef in b.items():
        getattr(c, "set_%s_bias%s" % (BIAS[key[0]], key[1]))(ZS, poly(coef)(ZS))


def populations(b):
    return [O.Population(poly(b["g%d" % i]), poly(b["s%d" % i]), poly(b["e%d" % i])) for i in (1, 2)]


def configure(case):
    import coffe
    c = coffe.Coffe()
    for k, v in case["set"]:
        setattr(c, k, v)
    return c


def geometry(rng, bg_chi, zlo=0.05, zhi=3.5, rlo=5.0, rhi=400.0):
    """a point whose two ends lie inside the light cone"""
    while True:
        z = float(np.exp(rng.uniform(np.log(zlo), np.log(zhi))))
        r = float(np.exp(rng.uniform(np.log(rlo), np.log(rhi))))
        u = rng.random()
        mu = float(rng.choice([-1, 0, 1, 0.999])) if u < 0.15 else float(rng.uniform(-1, 1))
        # closer pairs lose digits: the oracle combines integrals with coefficients of order (chi/r)^4
        if r / 2 < 0.7 * bg_chi(z) and r > bg_chi(z) / 100:
            return z, r, mu


class Renormalization:
    """int P/k^2 j0 j0 dk / 2 pi^2 on a table: the exact function is evaluated once on a fine grid in (c1 - c2, c1 + c2)

    j0(a)j0(b) = (cos(a-b) - cos(a+b)) / (2ab), so only one one-dimensional function is needed:
    C(x) = int P/k^4 (1 - cos(kx)) dk / 2 pi^2 ; ren = (C(c1+c2) - C(|c1-c2|)) / (2 c1 c2)."""

    def __init__(self, k, p, xmax=25000.0):
        from scipy.interpolate import CubicSpline
        sp = O.akima(k, p)
        edges = np.unique(np.concatenate([np.geomspace(k[0], k[-1], 1500),
                                          np.arange(k[0], 0.08, 2.5e-5), np.arange(0.08, min(k[-1], 0.6), 4e-4)]))
        edges = edges[(edges >= k[0]) & (edges <= k[-1])]
        x, w = np.polynomial.legendre.leggauss(6)
        a, b = edges[:-1, None], edges[1:, None]
        kk = (0.5 * (b - a) * x + 0.5 * (a + b)).ravel()
        wt = (0.5 * (b - a) * w).ravel() * sp(kk) / kk ** 4 / (2 * np.pi ** 2)
        X = np.concatenate([[0.0], np.geomspace(0.05, 30, 250), np.arange(31, 1500, 4.0), np.arange(1500, xmax, 9.0)])
        val = np.empty(len(X))
        for i in range(0, len(X), 64):
            val[i:i + 64] = 2 * (np.sin(np.outer(X[i:i + 64], kk) / 2) ** 2 @ wt)
        # C'(0) = 0
        self.C = CubicSpline(X, val, bc_type=((1, 0.0), "not-a-knot"))
        self.C2 = float(np.sum(wt * kk ** 2))

    def __call__(self, c1, c2):
        c1, c2 = np.broadcast_arrays(np.asarray(c1, float), np.asarray(c2, float))
        c1, c2 = np.maximum(c1, 1e-3), np.maximum(c2, 1e-3)
        return (self.C(c1 + c2) - self.C(np.abs(c1 - c2))) / (2 * c1 * c2)
