"""Survey configurations and the Gaussian covariance (C10, C11, C12, ...)."""
import numpy as np
from scipy.special import spherical_jn

from . import oracle as O
from . import twopoint as TP

PARTS = ("covariance_cosmic", "covariance_mixed", "covariance_poisson")
LIGHT = 2997.92458


def survey(rng, nbins=1, ls=None, nsep=None, binned=False, average=False, populations=(1, 1, 1, 1)):
    """a random survey whose separations fit into the thinnest bin"""
    z = sorted(rng.uniform(0.3, 1.8, nbins).tolist(), key=lambda _: rng.random())
    dz = [float(rng.uniform(0.1, 0.25)) for _ in z]
    nsep = nsep or int(rng.integers(2, 5))
    pix = [float(rng.uniform(4, 12)) for _ in z]
    # separate bins in the separation (a binned estimator has disjoint shells)
    sep = np.cumsum(np.concatenate([[rng.uniform(25, 45)], rng.uniform(13, 40, nsep - 1)]))
    return dict(z=z, dz=dz, n1=[float(10 ** rng.uniform(-4.5, -2)) for _ in z], n2=[float(10 ** rng.uniform(-4.5, -2)) for _ in z],
                fsky=[float(rng.uniform(0.05, 1)) for _ in z], pix=pix, sep=[float(x) for x in sep], l=[int(x) for x in ((0, 2, 4) if ls is None else ls)],
                binned=bool(binned), average=bool(average), pops=[int(x) for x in populations],
                den=True, rsd=bool(rng.random() < 0.85), type="gsl", method="standard", sampling=1000, interp="bicubic", b34=[float(x) for x in rng.uniform(0.6, 2.5, 2)])


def configure(case):
    """object with the cosmology, spectrum, biases and survey of the case"""
    c = TP.configure(case)
    k, p = TP.spectrum_table(case["spec"])
    TP.set_biases(c, case["bias"])
    s = case["survey"]
    c.set_galaxy_bias3(TP.ZS, s["b34"][0] + 0.1 * TP.ZS)
    c.set_galaxy_bias4(TP.ZS, s["b34"][1] + 0.2 * TP.ZS)
    c.set_power_spectrum_linear(k, p)
    apply(c, s)
    return c


def apply(c, s):
    from . import coffeutil as U
    U.set_names(c, [n for n in ("den", "rsd") if s[n]])
    c.z_mean, c.deltaz = s["z"], s["dz"]
    c.z_min, c.z_max = [a - b for a, b in zip(s["z"], s["dz"])], [a + b for a, b in zip(s["z"], s["dz"])]
    c.number_density1, c.number_density2, c.fsky, c.pixelsize = s["n1"], s["n2"], s["fsky"], s["pix"]
    c.sep, c.l = s["sep"], s["l"]
    c.has_binned_covariance = s["binned"]
    c.covariance_populations = s["pops"]
    c.integration_1d_type = s["type"]
    c.covariance_integration_method = s["method"]
    c.covariance_integration_sampling = s["sampling"]
    c.covariance_interpolation_method = s["interp"]


def records(c, s, parts=PARTS):
    for p in PARTS:
        setattr(c, p, p in parts)
    return c.compute_average_covariance_bulk() if s["average"] else c.compute_covariance_bulk()


def matrix(c, s, parts=PARTS):
    """[bin, l1, r1, l2, r2], filled by label so that the order does not matter"""
    out = np.full((len(s["z"]), len(s["l"]), len(s["sep"]), len(s["l"]), len(s["sep"])), np.nan)
    for m in records(c, s, parts):
        zz = 0.5 * (m.z_min + m.z_max) if s["average"] else m.z
        b = int(np.argmin(np.abs(np.array(s["z"]) - zz)))
        r1, r2 = (int(np.argmin(np.abs(np.array(s["sep"]) - x))) for x in (m.r1, m.r2))
        i = (b, s["l"].index(m.l1), r1, s["l"].index(m.l2), r2)
        if not np.isnan(out[i]):
            raise AssertionError("two values for %r" % (i,))
        out[i] = m.value
    if np.isnan(out).any():
        raise AssertionError("missing covariance elements")
    return out


class Gaussian:
    """direct evaluation of the Gaussian covariance of flat-sky multipoles"""

    def __init__(self, case, bg):
        self.case, self.bg = case, bg
        k, p = TP.spectrum_table(case["spec"])
        sp, sp2 = O.akima(k, p), O.akima(k, p ** 2)
        rmax = max(case["survey"]["sep"]) + 10
        # half a period of the fastest oscillation per panel
        edges = np.unique(np.concatenate([np.geomspace(k[0], k[-1], 900), np.arange(k[0], k[-1], 1.5 / rmax)]))
        x, w = np.polynomial.legendre.leggauss(8)
        a, b = edges[:-1, None], edges[1:, None]
        self.k = (0.5 * (b - a) * x + 0.5 * (a + b)).ravel()
        w = (0.5 * (b - a) * w).ravel() * self.k ** 2
        self.w1, self.w2 = w * sp(self.k), w * sp2(self.k)

    def bessel(self, l, r, width):
        if not width:
            return spherical_jn(l, self.k * r)
        x, w = np.polynomial.legendre.leggauss(24)
        s = r + 0.5 * width * x
        num = (0.5 * width * w * s ** 2) @ spherical_jn(l, np.outer(s, self.k))
        return num / (((r + width / 2) ** 3 - (r - width / 2) ** 3) / 3)

    def volume(self, i):
        s, bg = self.case["survey"], self.bg
        z, dz = s["z"][i], s["dz"][i]
        if not s["average"]:
            return 4 * np.pi * s["fsky"][i] * (bg.chi(z + dz) ** 3 - bg.chi(z - dz) ** 3) / 3
        x, w = np.polynomial.legendre.leggauss(40)
        zz = z + dz * x
        integral = np.sum(dz * w / (bg.H(zz) * bg.chi(zz) ** 2))
        return 4 * np.pi * s["fsky"][i] / integral / (bg.h / LIGHT) ** 2

    def matrix(self, parts=PARTS):
        s, bg = self.case["survey"], self.bg
        L, R = s["l"], s["sep"]
        out = np.zeros((len(s["z"]), len(L), len(R), len(L), len(R)))
        mu, wmu = np.polynomial.legendre.leggauss(20)
        Leg = [np.polynomial.legendre.Legendre.basis(l)(mu) for l in L]
        b = self.case["bias"]
        for q, z in enumerate(s["z"]):
            width = s["pix"][q] if s["binned"] else 0.0
            J = [[self.bessel(l, r, width) for r in R] for l in L]
            bias = [float(TP.poly(b["g1"])(z)), float(TP.poly(b["g2"])(z)), s["b34"][0] + 0.1 * z, s["b34"][1] + 0.2 * z]
            f = float(bg.f(z)) if s["rsd"] else 0.0
            D2 = float(bg.D1(z)) ** 2
            V = self.volume(q)
            p1, p2, p3, p4 = s["pops"]
            K = {p: (bias[p - 1] if s["den"] else 0.0) + f * mu ** 2 for p in s["pops"]}
            n1, n2 = s["n1"][q], s["n2"][q]
            for i, l1 in enumerate(L):
                for j, l2 in enumerate(L):
                    if (l1 + l2) % 2:
                        continue
                    sign = (-1) ** ((l1 - l2) // 2)
                    par = (-1) ** l2
                    ww = wmu * Leg[i] * Leg[j]
                    cosmic = np.sum(ww * K[p1] * K[p3] * K[p2] * K[p4] * (1 + par))
                    mixed = np.sum(ww * (K[p1] * K[p3] * (p2 == p4) / n2 + K[p2] * K[p4] * (p1 == p3) / n1 +
                                         par * (K[p1] * K[p4] * (p2 == p3) / n2 + K[p2] * K[p3] * (p1 == p4) / n1)))
                    pre = sign * (2 * l1 + 1) * (2 * l2 + 1) / V / (4 * np.pi ** 2)
                    for m in range(len(R)):
                        for n in range(len(R)):
                            v = 0.0
                            jj = J[i][m] * J[j][n]
                            if PARTS[0] in parts:
                                v += pre * D2 ** 2 * cosmic * np.sum(self.w2 * jj)
                            if PARTS[1] in parts:
                                v += pre * D2 * mixed * np.sum(self.w1 * jj)
                            if PARTS[2] in parts and i == j and m == n:
                                shell = ((R[m] + s["pix"][q] / 2) ** 3 - (R[m] - s["pix"][q] / 2) ** 3) / 3 if s["binned"] else R[m] ** 2 * s["pix"][q]
                                v += (2 * l1 + 1) / (4 * np.pi) / V / shell / n1 / n2 * ((p1 == p3) * (p2 == p4) + par * (p1 == p4) * (p2 == p3))
                            out[q, i, m, j, n] = v
        return out
