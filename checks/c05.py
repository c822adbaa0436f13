"""C05: flat-sky modes against a plane-parallel oracle, its projections, and the full-sky limit."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np  # noqa: E402
from vlib import core  # noqa: E402
from vlib import twopoint as TP  # noqa: E402

FLAT = ("has_flatsky_local", "has_flatsky_local_nonlocal", "has_flatsky_nonlocal")
H0 = 1 / 2997.92458
REL, REL_LENS, REL_LL = 2e-4, 4e-3, 1e-3
MC = 0.8


class Limber:
    """L(p) = int k P(k) J0(k p) dk / 2 pi by quadrature of the table"""

    def __init__(self, k, p):
        from vlib import oracle as O
        sp = O.akima(k, p)
        edges = np.unique(np.concatenate([np.geomspace(k[0], k[-1], 900), np.arange(k[0], k[-1], 2e-3)]))
        x, w = np.polynomial.legendre.leggauss(5)
        a, b = edges[:-1, None], edges[1:, None]
        self.k = (0.5 * (b - a) * x + 0.5 * (a + b)).ravel()
        self.w = (0.5 * (b - a) * w).ravel() * sp(self.k) * self.k / (2 * np.pi)
        self.s = None

    def direct(self, p):
        from scipy.special import j0
        p = np.atleast_1d(np.asarray(p, float))
        return np.array([np.sum(self.w * j0(self.k * q)) for q in p])

    def table(self, top):
        from scipy.interpolate import CubicSpline
        x = np.concatenate([np.linspace(0, 30, 241), np.arange(30.5, top + 12, 0.9)])
        self.s = CubicSpline(x, self.direct(x))

    def __call__(self, p):
        return self.s(p)


def plane_chain(d1, d2):
    """{j: polynomial in x} of d^d1/dchi1^d1 d^d2/dchi2^d2 F(s), s = (x^2 + p^2)/2, x = chi2 - chi1"""
    e = {0: np.polynomial.Polynomial([1.0])}
    X = np.polynomial.Polynomial([0.0, 1.0])
    for sign in [-1.0] * d1 + [1.0] * d2:
        o = {}
        for j, q in e.items():
            o[j] = o.get(j, 0) + sign * q.deriv()
            o[j + 1] = o.get(j + 1, 0) + sign * X * q
        e = o
    return e


class Plane:
    """all operators at the mean redshift, parallel lines of sight"""

    def __init__(self, bg, pops, lookup, limber):
        self.bg, self.p, self.look, self.L = bg, pops, lookup, limber

    def local(self, A, B, z, r, mu):
        from vlib import oracle as O
        m1, d1, _ = O.SHAPE[A]
        m2, d2, _ = O.SHAPE[B]
        K = O.Kernels(self.look)
        a = O.local_amplitude(A, self.bg, self.p[0], z) * O.local_amplitude(B, self.bg, self.p[1], z)
        x = r * np.asarray(mu, float)
        return a * sum(q(x) * K.F(m1 + m2, j, np.full_like(x, r)) for j, q in plane_chain(d1, d2).items()
                       if np.any(q.coef))

    def den_len(self, z, r, mu):
        """the part of den-len + len-den even under the exchange of front and back"""
        bg = self.bg
        b = [p.b(z) for p in self.p]
        s = [p.s(z) for p in self.p]
        sym = 0.5 * (b[0] * (5 * s[1] - 2) + b[1] * (5 * s[0] - 2))
        # (5s-2)/2 dchi/chi^2 chi^2 lap_perp(2 phi) -> -k^2 / k^2
        return sym * 1.5 * bg.om * (H0 * bg.h) ** 2 * (1 + z) * bg.D1(z) ** 2 * r * np.abs(mu) * self.L(r * np.sqrt(np.maximum(1 - np.asarray(mu) ** 2, 0)))

    def len_len(self, z, r, mu):
        from vlib import oracle as O
        bg = self.bg
        chi = float(bg.chi(z))
        x, w = O.gl(40)
        x = np.concatenate([x / 2, 0.5 + x / 2])
        w = np.concatenate([w, w]) / 2
        lam = chi * x
        zl = bg.z_of_chi(lam)
        s = [p.s(z) for p in self.p]
        # (5s-2)/2 int dlam (chi-lam)/(chi lam) lam^2 lap_perp 2 phi(lam), twice, k^4/k^4 and Limber's delta function of the two lines of sight
        q = (1.5 * bg.om * (H0 * bg.h) ** 2 * (1 + zl) * np.array([bg.D1(float(t)) for t in zl])) ** 2 * (lam * (chi - lam) / chi) ** 2 * w * chi
        p = np.multiply.outer(r * np.sqrt(np.maximum(1 - np.asarray(mu, float) ** 2, 0)), x)
        return (5 * s[0] - 2) * (5 * s[1] - 2) * (self.L(p) * q).sum(-1)


def pairs_of(names, cross):
    """what the modes describe: rsd-len and d1-len vanish for parallel lines of sight in Limber's approximation"""
    out = []
    for A, B in itertools.product(names, names):
        if A != B or not cross:
            out.append((A, B))
    return out


def parts(P, names, cross, z, r, mu):
    out = {}
    for A, B in pairs_of(names, cross):
        if A == "len" and B == "len":
            out["len-len"] = P.len_len(z, r, mu)
        elif "len" in (A, B):
            if "den" in (A, B) and A == "den":
                out["den-len"] = P.den_len(z, r, mu)
        else:
            out[A + "-" + B] = P.local(A, B, z, r, mu)
    return out


def values(case):
    from vlib import coffeutil as U, oracle as O
    c = TP.configure(case)
    k, p = TP.spectrum_table(case["spec"])
    U.set_names(c, case["names"])
    for f in FLAT:
        setattr(c, f, f in case["flat"])
    c.integration_sampling = case["sampling"]
    c.integration_1d_prec = 1e-6
    c.l = [0, 1, 2, 3, 4, 5, 6]
    if case.get("type"):
        c.integration_1d_type = case["type"]
    c.set_power_spectrum_linear(k, p)
    bg = U.background(c)
    rng = np.random.default_rng(case["seed"])
    L = Limber(k, p)
    L.table(320.0)
    out = []
    X, W = np.polynomial.legendre.leggauss(24)
    # |mu| and sqrt(1-mu^2): halves, refined towards the ends
    e = np.array([0, 0.02, 0.1, 0.3, 0.6, 0.85, 0.96, 0.995, 1.0])
    xm = np.concatenate([0.5 * (b - a) * X + 0.5 * (a + b) for a, b in zip(e[:-1], e[1:])])
    wm = np.concatenate([0.5 * (b - a) * W for a, b in zip(e[:-1], e[1:])])
    xm, wm = np.concatenate([-xm, xm]), np.concatenate([wm, wm])
    for ib in range(case["nbias"]):
        b = TP.biases(rng)
        for key in b:
            if rng.random() < 0.06:
                b[key] = (0.0, 0.0, 0.0)
        TP.set_biases(c, b)
        pops = TP.populations(b)
        P = Plane(bg, pops, U.lookup(c), L)
        for ip in range(case["npoint"]):
            z, r = float(rng.uniform(0.15, 3)), float(np.exp(rng.uniform(np.log(6), np.log(300))))
            mu = float(rng.choice([-0.999, 0.0, 0.999])) if rng.random() < 0.15 else float(rng.uniform(-1, 1))
            cross = case["cross"]
            c.has_only_cross_correlations = cross

            def full(mus):
                v = parts(P, case["names"], cross, z, r, mus)
                return {q: np.zeros(len(mus)) + x for q, x in v.items()}
            at = full(np.array([mu]))
            near = full(np.array([-0.95, -0.4, 0.2, 0.7]))
            scale = {q: max(abs(float(at[q][0])), 0.5 * float(np.abs(near[q]).max())) for q in at}
            if "den-len" in scale:      # the interpolation of the radial integral where it has nearly decayed
                pr = r * np.sqrt(1 - mu * mu)
                scale["den-len"] = max(scale["den-len"], 0.2 * abs(float(at["den-len"][0]) / float(L(pr)) * float(L(min(pr, 40.0)))))
            v = {q: float(x[0]) for q, x in at.items()}
            if "d1-d1" in v:    # mirror: -(I^2_2 part), the known sign
                iso = float(O.local_amplitude("d1", bg, pops[0], z) * O.local_amplitude("d1", bg, pops[1], z) / 3 * c.integral(r=r, n=2, l=0))
                other = 2 * iso - v["d1-d1"]
            else:
                other = None
            tot = dict(v)
            rec_tol = scale
            got = c.compute_corrfunc(z=z, r=r, mu=mu)
            ref = float(sum(tot.values()))
            tol = sum((REL_LL if q == "len-len" else REL_LENS if q == "den-len" else REL) * s for q, s in rec_tol.items())
            if "len-len" in v:      # the two-point function is sampled
                tol += MC * case["rms"] * scale["len-len"] / np.sqrt(case["sampling"])
            out.append(dict(kind="corrfunc", z=z, r=r, mu=mu, l=None, got=float(got), ref=ref, err=float(abs(got - ref) / tol) if tol else (0.0 if got == 0 else 1e99),
                            mirror=None if other is None else float(ref - v["d1-d1"] + other), tol=float(tol)))
            grid = full(xm)
            for l in rng.permutation(7)[:3].tolist():
                pl = np.polynomial.legendre.Legendre.basis(int(l))(xm) * wm * (2 * l + 1) / 2
                v = {q: float(np.sum(g * pl)) for q, g in grid.items()}
                tol = sum((REL_LL if q == "len-len" else REL_LENS if q == "den-len" else REL) *
                          max(abs(v[q]), 0.1 * float(np.sqrt(np.sum(grid[q] ** 2 * wm)))) for q in v)
                got = c.compute_multipole(z=z, r=r, l=int(l))
                ref = float(sum(v.values()))
                mirror = None
                if "d1-d1" in v:
                    mirror = ref - v["d1-d1"] + ((2 * iso if l == 0 else 0.0) - v["d1-d1"])
                out.append(dict(kind="multipole", z=z, r=r, mu=None, l=int(l), got=float(got), ref=ref,
                                err=float(abs(got - ref) / tol) if tol > 1e-30 else (0.0 if abs(got) < 1e-15 else 1e99), mirror=mirror, tol=float(tol)))
    return dict(points=out)


def limit(case):
    """flat against full sky at fixed r: the difference has to shrink like r/chi"""
    from vlib import coffeutil as U
    c = TP.configure(case)
    k, p = TP.spectrum_table(case["spec"])
    U.set_names(c, case["names"])
    c.integration_sampling = case["sampling"]
    c.has_only_cross_correlations = case["cross"]
    c.set_power_spectrum_linear(k, p)
    b = TP.biases(np.random.default_rng(case["seed"]), equal=True)
    b = {q: (v[0], 0.0, 0.0) for q, v in b.items()}
    TP.set_biases(c, b)
    rng = np.random.default_rng(case["seed"] + 1)
    out = []
    for _ in range(case["npoint"]):
        r, mu = float(rng.uniform(8, 30)), float(rng.uniform(-0.9, 0.9))
        z = float(rng.uniform(0.8, 2.5))
        v = []
        for flat in ((), FLAT):
            for f in FLAT:
                setattr(c, f, f in flat)
            v.append(c.compute_corrfunc(z=z, r=r, mu=mu))
            if not flat:
                # what the full-sky value is made of
                s = 0.0
                for m in (-0.9, -0.3, 0.3, 0.9):
                    s = max(s, abs(c.compute_corrfunc(z=z, r=r, mu=m)))
        out.append(dict(z=z, r=r, mu=mu, full=float(v[0]), flat=float(v[1]), x=float(r / c.comoving_distance(z)), scale=float(max(s, abs(v[0])))))
    return dict(points=out)


LOCAL = ["den", "rsd", "d1"]


def generate(chk):
    rng = np.random.default_rng(chk.seed * 1009 + 5)
    out = []
    for i in range(chk.n(3, 40)):
        cosmo, spec = TP.cosmology(rng, simple=i == 0), TP.spectrum(rng)

        def add(names, cross=False, fn="values", **kw):
            d = dict(fn=fn, set=cosmo, spec=spec, seed=int(rng.integers(1 << 30)), names=list(names), cross=cross, flat=list(FLAT), sampling=20000, nbias=4, npoint=4, rms=1.0,
                     type="exponential" if rng.random() < 0.2 else "")
            d.update(kw)
            d["label"] = "%s %s/%s" % (fn, "+".join(d["names"]), "cross" if cross else "all")
            out.append(d)
        for n in LOCAL:
            add([n], flat=["has_flatsky_local"], npoint=3)
        for pr in itertools.combinations(LOCAL, 2):
            add(pr, cross=True, flat=["has_flatsky_local"], npoint=3)
        add(LOCAL, cross=True)
        add(["den", "rsd"])
        add(["den", "len"], cross=True, flat=["has_flatsky_local_nonlocal"] if i % 2 else FLAT)
        add(["rsd", "d1", "len"], cross=True)
        add(["len"], flat=["has_flatsky_nonlocal"])
        add(["den", "rsd", "len"])
        add(["den", "rsd", "d1", "len"], cross=True)
        for n in ("den", "rsd", "len"):
            add([n], fn="limit", npoint=8)
        for pr in itertools.combinations(LOCAL, 2):
            if pr == ("den", "rsd"):
                add(pr, cross=True, fn="limit", npoint=8)
    out.sort(key=lambda d: -("len" in d["names"]))
    return out


def body(chk):
    cases = [chk.replaying["case"]] if chk.replaying else generate(chk)

    def result(case, res):
        if chk.failed(case, res, "evaluating flat-sky terms"):
            return
        name = "+".join(case["names"])
        for pt in res["ok"]["points"]:
            if case["fn"] == "limit":
                e = abs(pt["full"] - pt["flat"]) / pt["scale"] / pt["x"]
                chk.maximum("limit: difference/scale in units of r/chi, " + name, e)
                # smooth amplitudes: the first order cancels for equal populations; lensing is sampled
                if not (e <= 0.05 if "len" not in case["names"] else e * pt["x"] <= 0.1):
                    chk.violation("limit:%s" % name, "%s at z=%.6g r=%.6g mu=%.6g (r/chi=%.3g): full sky %.8g, flat sky %.8g" % (
                        name, pt["z"], pt["r"], pt["mu"], pt["x"], pt["full"], pt["flat"]), case)
                chk.saw("limit %s %.6g %.6g" % (name, pt["z"], pt["r"]), nontrivial=pt["full"] != 0, sample=pt)
                continue
            where = "mu=%.6g" % pt["mu"] if pt["l"] is None else "l=%d" % pt["l"]
            if not pt["err"] <= 1 and pt["mirror"] is not None and abs(pt["got"] - pt["mirror"]) <= pt["tol"]:
                chk.violation("d1-d1-sign", "d1-d1 has the opposite sign of its I^2_2 part", case)
                chk.count("points_with_known_d1_d1_sign")
                chk.saw("%s %.6g %.6g %s" % (case["label"], pt["z"], pt["r"], where))
                continue
            if pt["err"] < 50:
                chk.maximum("difference/allowed " + case["label"] + " " + pt["kind"], pt["err"])
            if not pt["err"] <= 1:
                chk.violation("value:%s:%s" % (case["label"], pt["kind"]), "%s, %s, at z=%.6g r=%.6g %s: the library gives %.10g, plane-parallel %.10g "
                              "(%.3g of what is allowed)" % (case["label"], "+".join(case["flat"]), pt["z"], pt["r"], where, pt["got"], pt["ref"], pt["err"]), case)
            chk.saw("%s %.6g %.6g %s" % (case["label"], pt["z"], pt["r"], where), nontrivial=abs(pt["ref"]) > 0, sample=pt)

    chk.run_cases(cases, on_result=result, timeout=300)


if __name__ == "__main__":
    chk = core.Check("C05", __file__, "a distinct (contribution set, z, r, mu or l) with random biases whose flat-sky value was compared with the plane-parallel "
                     "oracle (or with the full-sky value, r/chi < 0.02) and is not zero",
                     assumptions=["the radial integrals of the local terms are taken from the library (C02 decides them); Limber's integral is done by quadrature",
                                  "flat-sky density-lensing describes the part symmetric under exchange of front and back (odd multipoles are documented as not implemented)"])
    chk.main(body, min_nontrivial=100)
