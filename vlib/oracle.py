"""First-principles oracles, independent of coffe's formulas.

Background: w0-wa Friedmann and growth equations integrated with scipy.
Two-point function: every contribution is a linear operator on the matter
density field,
    Delta(n, z) = sum_c  A_c(chi) O_c delta(chi n)
and the expectation of a pair of operators on xi(r) is computed mechanically
(chain rule on s = r^2/2 as a polynomial of chi1, chi2, u = cos theta), so
that no pair has a formula of its own.
"""
import math

import numpy as np
from scipy.integrate import solve_ivp, quad
from scipy.interpolate import CubicSpline

H0 = 1.0 / 2997.92458  # h / Mpc


# ------------------------------------------------------------------ spectrum
def bbks(k, omega_m=0.3, h=0.67, n_s=0.96, amp=2.2e6):
    """A smooth matter spectrum, k in 1/Mpc, P in Mpc^3."""
    q = np.asarray(k) / (omega_m * h * h)
    t = np.log(1 + 2.34 * q) / (2.34 * q) * (1 + 3.89 * q + (16.1 * q) ** 2 + (5.46 * q) ** 3 + (6.71 * q) ** 4) ** -0.25
    return amp * np.asarray(k) ** n_s * t * t


def spectrum_table(n=400, kmin=1e-5, kmax=15.0, wiggle=0.0, **kw):
    k = np.geomspace(kmin, kmax, n)
    p = bbks(k, **kw)
    if wiggle:
        p = p * (1 + wiggle * np.sin(k * 150.0) * np.exp(-(k / 0.15) ** 2))
    return k, p


# ---------------------------------------------------------------- background
class Background:
    def __init__(self, cdm, baryon, gamma, nu, w0, wa, h):
        self.om = cdm + baryon          # what clusters: growth and the Poisson equation
        self.mat = cdm + baryon + nu    # what dilutes as a^-3
        self.gamma = gamma
        self.de = 1 - self.mat - gamma
        self.w0, self.wa, self.h = w0, wa, h
        zs = np.linspace(0, 15.05, 6001)
        sol = solve_ivp(lambda z, y: 1 / self.E(z), (0, 15.06), [0.0], method="DOP853", rtol=1e-11, atol=1e-13,
                        dense_output=True)
        self._chi = sol.sol
        c = self._chi(zs)[0] / (H0 * h)
        self._chi_s = CubicSpline(zs, c)
        self._z_s = CubicSpline(c, zs)
        # growth: matter + smooth dark energy (radiation neglected), started in matter domination at a = 0.05
        x0 = self.om / (1 - self.om)

        def rhs(a, y):
            w = self.w0 + self.wa * (1 - a)
            # x = x0 exp(-3 int_a^1 w/a' da')
            x = x0 * math.exp(-3 * ((self.w0 + self.wa) * (-math.log(a)) - self.wa * (1 - a)))
            return [y[1], -1.5 * (1 - w / (1 + x)) * y[1] / a + 1.5 * x / (1 + x) * y[0] / a ** 2]
        g = solve_ivp(rhs, (0.05, 1.0), [0.05, 1.0], method="DOP853", rtol=1e-10, atol=1e-13, dense_output=True)
        self._g = g.sol
        self._d0 = g.sol(1.0)[0]

    def de_density(self, z):
        a = 1 / (1 + np.asarray(z, float))
        return a ** (-3 * (1 + self.w0 + self.wa)) * np.exp(-3 * self.wa * (1 - a))

    def E(self, z):
        z = np.asarray(z, float)
        return np.sqrt(self.mat * (1 + z) ** 3 + self.gamma * (1 + z) ** 4 + self.de * self.de_density(z))

    def a(self, z):
        return 1 / (1 + np.asarray(z, float))

    def H(self, z):
        return self.E(z) * self.h * H0

    def Hc(self, z):
        return self.H(z) * self.a(z)

    def Hc_prime(self, z):
        """derivative of the conformal Hubble rate with respect to conformal time"""
        z = np.asarray(z, float)
        w = self.w0 + self.wa * z / (1 + z)
        rho = (self.mat * (1 + z) ** 3 + 2 * self.gamma * (1 + z) ** 4 +
               (1 + 3 * w) * self.de * self.de_density(z))
        return -0.5 * (self.h * H0) ** 2 * rho / (1 + z) ** 2

    def chi(self, z):
        return self._chi_s(z)

    def z_of_chi(self, c):
        return self._z_s(c)

    def D1(self, z):
        return self._g(self.a(z))[0] / self._d0

    def f(self, z):
        y = self._g(self.a(z))
        return y[1] * self.a(z) / y[0]


# ------------------------------------------------- polynomials in chi1, chi2, u
def _pmul(p, q):
    out = {}
    for (a, b, c), v in p.items():
        for (d, e, f), w in q.items():
            k = (a + d, b + e, c + f)
            out[k] = out.get(k, 0.0) + v * w
    return out


def _padd(p, q):
    out = dict(p)
    for k, v in q.items():
        out[k] = out.get(k, 0.0) + v
    return out


def _pder(p, i):
    out = {}
    for k, v in p.items():
        if k[i]:
            n = list(k)
            n[i] -= 1
            out[tuple(n)] = out.get(tuple(n), 0.0) + v * k[i]
    return out


S = {(2, 0, 0): 0.5, (0, 2, 0): 0.5, (1, 1, 1): -1.0}
DS = [_pder(S, i) for i in range(3)]


def _der(expr, i):
    """expr: {j: polynomial} meaning sum_j poly_j * (d/ds)^j F"""
    out = {}
    for j, p in expr.items():
        out[j] = _padd(out.get(j, {}), _pder(p, i))
        out[j + 1] = _padd(out.get(j + 1, {}), _pmul(p, DS[i]))
    return {j: p for j, p in out.items() if p}


def _lap(expr):
    """angular Laplacian (1-u^2) d^2/du^2 - 2u d/du"""
    d1 = _der(expr, 2)
    d2 = _der(d1, 2)
    out = {}
    for j, p in d2.items():
        out[j] = _padd(out.get(j, {}), _padd(p, _pmul(p, {(0, 0, 2): -1.0})))
    for j, p in d1.items():
        out[j] = _padd(out.get(j, {}), _pmul(p, {(0, 0, 1): -2.0}))
    return out


_cache = {}


def chain(d1, d2, lap):
    """d1/d2: number of radial derivatives at point 1/2; lap: number of angular Laplacians"""
    key = (d1, d2, lap)
    if key not in _cache:
        e = {0: {(0, 0, 0): 1.0}}
        for _ in range(d1):
            e = _der(e, 0)
        for _ in range(d2):
            e = _der(e, 1)
        for _ in range(lap):
            e = _lap(e)
        _cache[key] = e
    return _cache[key]


def _peval(p, c1, c2, u):
    r = 0.0
    for (a, b, c), v in p.items():
        r = r + v * c1 ** a * c2 ** b * u ** c
    return r


class Kernels:
    """F_j of psi_m from a look-up I(n, l, r) that returns I^n_l (times r^(n-l) when n > l)."""

    def __init__(self, lookup, ren=None):
        self.lookup, self.ren = lookup, ren

    def F(self, m, j, r):
        n, l = m - j, j
        val = self.lookup(n, l, r)
        # lookup(n,l) = I^n_l * r^(n-l) if n > l else I^n_l
        p = m - 2 * j
        if n > l:
            p -= n - l
        return (-1) ** j * val * r ** p

    def expect(self, m, d1, d2, lap, c1, c2, u, r=None):
        """<O1 O2> of psi_m with the given derivatives"""
        if r is None:
            r = np.sqrt(np.maximum(c1 * c1 + c2 * c2 - 2 * c1 * c2 * u, 0))
        out = 0.0
        for j, p in chain(d1, d2, lap).items():
            c = _peval(p, c1, c2, u)
            if j == 0 and m == 4:
                out = out + c * (self.F(4, 0, r) - self.ren(c1, c2))
            else:
                out = out + c * self.F(m, j, r)
        return out


# ------------------------------------------------------- contributions
LOCAL = ("den", "rsd", "d1", "d2", "g1", "g2", "g3")
INTEGRATED = ("len", "g4", "g5")
ALL = LOCAL + INTEGRATED
# (inverse Laplacians, radial derivatives, angular Laplacians)
SHAPE = {"den": (0, 0, 0), "rsd": (2, 2, 0), "d1": (2, 1, 0), "d2": (2, 0, 0), "g1": (2, 0, 0), "g2": (2, 0, 0),
         "g3": (2, 0, 0), "len": (2, 0, 1), "g4": (2, 0, 0), "g5": (2, 0, 0)}


class Population:
    """b, s, fevo: functions of z"""

    def __init__(self, b, s, e):
        self.b, self.s, self.e = b, s, e


def G_factor(bg, pop, z):
    c = bg.chi(z)
    h = bg.Hc(z)
    s = pop.s(z)
    return bg.Hc_prime(z) / h ** 2 + (2 - 5 * s) / (c * h) + 5 * s - pop.e(z)


def local_amplitude(name, bg, pop, z):
    """amplitude of the local operator on delta0: includes growth. rsd: d^2/dr^2 lap^-1,
    with lap^-1 -> -1/k^2, i.e. -1 on psi_2."""
    D = bg.D1(z)
    phi = -1.5 * bg.om * (H0 * bg.h) ** 2 / bg.a(z) * D  # Phi = Psi = phi * k^-2 delta0
    if name == "den":
        return pop.b(z) * D
    if name == "rsd":
        return -bg.f(z) * D
    if name == "d1":
        return -bg.Hc(z) * bg.f(z) * G_factor(bg, pop, z) * D
    if name == "d2":
        return (3 - pop.e(z)) * bg.f(z) * bg.Hc(z) ** 2 * D
    if name == "g1":
        return (1 + G_factor(bg, pop, z)) * phi
    if name == "g2":
        return (5 * pop.s(z) - 2) * phi
    if name == "g3":
        return (bg.f(z) - 1) * phi
    raise KeyError(name)


def los_amplitude(name, bg, pop, z, chi, x):
    """amplitude at lambda = x chi of the line-of-sight operator, for integration over x in (0,1)"""
    lam = chi * x
    zl = bg.z_of_chi(lam)
    phi = -1.5 * bg.om * (H0 * bg.h) ** 2 / bg.a(zl) * bg.D1(zl)
    if name == "len":
        # (5s-2)/2 int dlam (chi-lam)/(lam chi) lap(Phi+Psi)
        return (5 * pop.s(z) - 2) / 2 * (chi - lam) / (lam * chi) * 2 * phi * chi
    if name == "g4":
        return (2 - 5 * pop.s(z)) * 2 * phi
    if name == "g5":
        return G_factor(bg, pop, z) * chi * 2 * bg.Hc(zl) * (bg.f(zl) - 1) * phi
    raise KeyError(name)


def geometry(bg, z, r, mu):
    cm = bg.chi(z)
    c1, c2 = cm - r * mu / 2, cm + r * mu / 2
    u = (2 * cm * cm - r * r + mu * mu * r * r / 2) / (2 * cm * cm - mu * mu * r * r / 2)
    return cm, c1, c2, u


_GL = {}


def gl(n, a=0.0, b=1.0):
    if n not in _GL:
        _GL[n] = np.polynomial.legendre.leggauss(n)
    x, w = _GL[n]
    return 0.5 * (b - a) * x + 0.5 * (a + b), 0.5 * (b - a) * w


def x_nodes(width, n=24, x0=1.0, lo=0.0):
    """nodes on (0,1) refined towards x0 on the scale of width"""
    edges = {lo, 1.0}
    d = max(width, 1e-5)
    while d < 1.5:
        for e in (x0 - d, x0 + d):
            if lo < e < 1.0:
                edges.add(e)
        d *= 2.0
    if lo < x0 < 1.0:
        edges.add(x0)
    e = lo + 0.3 * (1 - lo)
    while e > 1e-3:   # and towards zero
        edges.add(e)
        e /= 4
    edges = sorted(edges)
    xs, ws = [], []
    for a, b in zip(edges[:-1], edges[1:]):
        if b - a < 1e-15:
            continue
        x, w = gl(n, a, b)
        xs.append(x)
        ws.append(w)
    return np.concatenate(xs), np.concatenate(ws)


class TwoPoint:
    def __init__(self, bg, pop1, pop2, kernels):
        self.bg, self.p1, self.p2, self.K = bg, pop1, pop2, kernels

    def local_local(self, A, Bn, z, r, mu):
        bg = self.bg
        _, c1, c2, u = geometry(bg, z, r, mu)
        z1, z2 = bg.z_of_chi(c1), bg.z_of_chi(c2)
        m1, d1, _ = SHAPE[A]
        m2, d2, _ = SHAPE[Bn]
        return float(local_amplitude(A, bg, self.p1, z1) * local_amplitude(Bn, bg, self.p2, z2) *
                     self.K.expect(m1 + m2, d1, d2, 0, c1, c2, u, r))

    def local_los(self, A, Bn, z, r, mu, n=24):
        """A local at point 1, B integrated at point 2"""
        bg = self.bg
        _, c1, c2, u = geometry(bg, z, r, mu)
        z1, z2 = bg.z_of_chi(c1), bg.z_of_chi(c2)
        m1, d1, _ = SHAPE[A]
        m2, _, lp = SHAPE[Bn]
        x0 = min(c1 * u / c2, 1.0)
        x, w = x_nodes(r / c2 * 0.5, n, x0)
        lam = c2 * x
        val = los_amplitude(Bn, bg, self.p2, z2, c2, x) * self.K.expect(m1 + m2, d1, 0, lp, c1, lam, u)
        return float(local_amplitude(A, bg, self.p1, z1) * np.sum(w * val))

    def los_local(self, A, Bn, z, r, mu, n=24):
        """A integrated at point 1, B local at point 2"""
        sw = TwoPoint(self.bg, self.p2, self.p1, self.K)
        return sw.local_los(Bn, A, z, r, -mu, n)

    def los_los(self, A, Bn, z, r, mu, n=12):
        bg = self.bg
        _, c1, c2, u = geometry(bg, z, r, mu)
        z1, z2 = bg.z_of_chi(c1), bg.z_of_chi(c2)
        lp = SHAPE[A][2] + SHAPE[Bn][2]
        X1, W1 = x_nodes(1.0, n)
        tot, sq = 0.0, 0.0
        amp1 = los_amplitude(A, bg, self.p1, z1, c1, X1)
        for x1, w1, a1 in zip(X1, W1, amp1):
            l1 = c1 * x1
            x0 = min(l1 * u / c2, 1.0)
            sep = l1 * math.sqrt(max(1 - u * u, 0))
            x, w = x_nodes(max(sep / c2 * 0.5, 1e-6), n, x0)
            val = los_amplitude(Bn, bg, self.p2, z2, c2, x) * self.K.expect(4, 0, 0, lp, l1, c2 * x, u)
            tot += w1 * a1 * np.sum(w * val)
            sq += w1 * a1 ** 2 * np.sum(w * val ** 2)
        self.rms = math.sqrt(sq)    # of the integrand, what a Monte Carlo estimate has to average out
        return float(tot)

    def pair(self, A, Bn, z, r, mu):
        """<A(1) B(2)>"""
        if A in LOCAL and Bn in LOCAL:
            return self.local_local(A, Bn, z, r, mu)
        if A in LOCAL:
            return self.local_los(A, Bn, z, r, mu)
        if Bn in LOCAL:
            return self.los_local(A, Bn, z, r, mu)
        return self.los_los(A, Bn, z, r, mu)

    def total(self, names, z, r, mu, only_cross=False):
        t = 0.0
        for A in names:
            for Bn in names:
                if only_cross and A == Bn:
                    continue
                t += self.pair(A, Bn, z, r, mu)
        return t


# ------------------------------------------------------------ Fourier-Bessel
def akima(x, y):
    """Akima's interpolant as he defined it (scipy's averages the slopes where the values are small)"""
    from scipy.interpolate import CubicHermiteSpline
    x, y = np.asarray(x, float), np.asarray(y, float)
    m = np.diff(y) / np.diff(x)
    m = np.concatenate([[3 * m[0] - 2 * m[1], 2 * m[0] - m[1]], m, [2 * m[-1] - m[-2], 3 * m[-1] - 2 * m[-2]]])
    w2 = np.abs(m[3:] - m[2:-1])     # |m_{i+1} - m_i|
    w1 = np.abs(m[1:-2] - m[:-3])    # |m_{i-1} - m_{i-2}|
    ne = w1 + w2
    with np.errstate(invalid="ignore", divide="ignore"):
        d = np.where(ne > 0, (w2 * m[1:-2] + w1 * m[2:-1]) / ne, 0.5 * (m[1:-2] + m[2:-1]))
    return CubicHermiteSpline(x, y, d)


class DirectIntegrals:
    """I^n_l(r) = 1/(2 pi^2) int k^2 P(k) j_l(kr)/(kr)^n dk over [kmin, kmax] by brute-force
    quadrature of a cubic-spline interpolation of the table."""

    def __init__(self, k, p, kmin, kmax, spline=None):
        self.kmin, self.kmax = kmin, kmax
        self.P = spline or CubicSpline(k, p)
        self._nodes = {}

    def nodes(self, r):
        # panels: log-spaced, no wider than ~1.5 radians of kr
        dmax = 1.5 / max(r, 1e-30)
        edges = [np.array([self.kmin])]
        ratio = 1.08
        n = int(math.ceil(math.log(self.kmax / self.kmin) / math.log(ratio)))
        log_edges = np.geomspace(self.kmin, self.kmax, n + 1)
        kc = dmax / (ratio - 1)  # beyond kc a log panel is too wide
        lo = log_edges[log_edges < kc]
        if len(lo) < len(log_edges):
            start = lo[-1] if len(lo) else self.kmin
            m = int(math.ceil((self.kmax - start) / dmax)) + 1
            hi = np.linspace(start, self.kmax, m)[1:]
            if not len(lo):
                lo = np.array([self.kmin])
            e = np.concatenate([lo, hi])
        else:
            e = log_edges
        x, w = np.polynomial.legendre.leggauss(8)
        a, b = e[:-1, None], e[1:, None]
        return (0.5 * (b - a) * x + 0.5 * (a + b)).ravel(), (0.5 * (b - a) * w).ravel()

    def raw(self, n, l, r):
        """what the library's 'integral' documents: I^n_l, times r^(n-l) if n > l"""
        from scipy.special import spherical_jn
        k, w = self.nodes(r)
        P = self.P(k)
        if r == 0:
            # j_l(x)/x^n * x^(n-l) -> 1/(2l+1)!! ; k-powers remain
            df = 1.0
            for i in range(1, l + 1):
                df *= 2 * i + 1
            if n >= l:
                return float(np.sum(w * k ** (2 - (n - l)) * P) / df / (2 * np.pi ** 2))
            return 0.0
        x = k * r
        j = spherical_jn(l, x)
        with np.errstate(divide="ignore", invalid="ignore"):
            f = k * k * P * j / x ** n
        if n > l:
            f = f * r ** (n - l)
        return float(np.sum(w * f) / (2 * np.pi ** 2))
