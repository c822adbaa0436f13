"""C06: multipoles against the Legendre projection of the library's own two-point function."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np  # noqa: E402
from vlib import core  # noqa: E402
from vlib import twopoint as TP  # noqa: E402

LOCAL = ["den", "rsd", "d1", "d2", "g1", "g2", "g3"]
LOS = ["len", "g4", "g5"]
REL = 5e-6
FLAT = ("has_flatsky_local", "has_flatsky_local_nonlocal", "has_flatsky_nonlocal")


# lensing of a foreground depends on the projected separation, which is small next to mu = +-1
EDGES = [0, 0.5, 0.9, 0.99, 0.999, 0.9999, 1]
EDGES = [-e for e in EDGES[:0:-1]] + EDGES


def panels(n, edges=EDGES):
    x, w = np.polynomial.legendre.leggauss(n)
    X, W = [], []
    for a, b in zip(edges[:-1], edges[1:]):
        X.append(0.5 * (b - a) * x + 0.5 * (a + b))
        W.append(0.5 * (b - a) * w)
    return np.concatenate(X), np.concatenate(W)


def evaluate(case):
    from vlib import coffeutil as U
    c = TP.configure(case)
    k, p = TP.spectrum_table(case["spec"])
    U.set_names(c, case["names"])
    for f in FLAT:
        setattr(c, f, f in case["flat"])
    c.l = list(range(7))
    c.has_only_cross_correlations = case["cross"]
    c.integration_1d_type = case["type"]
    c.integration_sampling = 3000
    c.set_power_spectrum_linear(k, p)
    bg = U.background(c)
    rng = np.random.default_rng(case["seed"])
    names = set(case["names"])
    los = bool(names & set(LOS))
    # the part that is integrated with fixed precision, and the part that is sampled
    exact = not los
    # with the flat-sky options on there are no multidimensional integrals left
    only_flat = (los and names <= {"den", "rsd", "d1", "len"} and "has_flatsky_local_nonlocal" in case["flat"] and
                 (case["cross"] or "has_flatsky_nonlocal" in case["flat"]))
    out = []
    for i in range(case["nbias"]):
        b = TP.biases(rng)
        TP.set_biases(c, b)
        for j in range(case["npoint"]):
            z, r, _ = TP.geometry(rng, bg.chi, zlo=0.15, zhi=3.0)
            X, W = panels(10 if exact or only_flat else 6)
            F = []
            for n in ((3000,) if exact else (3000, 3700, 4500)):
                c.integration_sampling = n
                F.append([c.compute_corrfunc(z=z, r=r, mu=float(m)) for m in X])
            F = np.array(F)
            f = F.mean(0)
            for l in rng.permutation(7)[:case["nl"]]:
                l = int(l)
                P = np.polynomial.legendre.Legendre.basis(l)(X)
                ref = (2 * l + 1) / 2 * np.sum(W * f * P)
                scale = (2 * l + 1) / 2 * np.sum(W * abs(f))
                if exact or only_flat:
                    got = [c.compute_multipole(z=z, r=r, l=l)]
                    tol = REL * scale
                    if only_flat and not case["cross"]:     # the flat-sky lensing-lensing two-point function is sampled
                        tol = 2e-3 * scale + 8 * np.std([(2 * l + 1) / 2 * np.sum(W * x * P) for x in F])
                else:
                    got = []
                    for n in (7000, 8500, 10000):
                        c.integration_sampling = n
                        got.append(c.compute_multipole(z=z, r=r, l=l))
                    spread = np.std([(2 * l + 1) / 2 * np.sum(W * x * P) for x in F])
                    tol = 8 * np.hypot(np.std(got), spread) + 0.02 * scale
                out.append(dict(z=z, r=r, l=l, got=float(np.mean(got)), ref=float(ref), err=float(abs(np.mean(got) - ref) / tol) if tol else 0.0,
                                tol=float(tol / scale) if scale else 0.0, n=len(X)))
    return dict(points=out)


def generate(rng, n):
    out = []
    for i in range(n):
        cosmo, spec = TP.cosmology(rng, simple=i == 0), TP.spectrum(rng)

        def add(names, flat=(), cross=False, **kw):
            out.append(dict(fn="evaluate", set=cosmo, spec=spec, seed=int(rng.integers(1 << 30)), names=names, flat=list(flat), cross=bool(cross),
                            type="exponential" if rng.random() < 0.3 else "gsl",
                            label="+".join(names) + ("/" + "+".join(x[12:] for x in flat) if flat else ""), **dict(dict(nbias=2, npoint=2, nl=4), **kw)))
        for _ in range(3):
            add(sorted(rng.choice(["den", "rsd", "d1"], size=rng.integers(1, 4), replace=False).tolist()), cross=False, nbias=4)
            add(sorted(rng.choice(["den", "rsd", "d1"], size=rng.integers(1, 4), replace=False).tolist()), flat=FLAT[:1], nbias=4)
        for _ in range(2):
            add(sorted(rng.choice(LOCAL, size=rng.integers(2, 5), replace=False).tolist()), cross=rng.random() < 0.4)
        add(["den", "len"], FLAT, nbias=4)
        add(["len"], FLAT[2:], nbias=4)
        add(["den", "len"], FLAT[1:2], cross=True, nbias=4)
        # sampled integrals
        kw = dict(nbias=2, npoint=1, nl=2)
        add([str(rng.choice(["den", "rsd", "d1"])), "len"], cross=True, **kw)
        add([str(rng.choice(["den", "rsd", "d1"])), "len"], FLAT[2:], **kw)
        add(["den", "len"], FLAT[1:2], **kw)
        add(["len"], **kw)
        add([str(rng.choice(LOCAL[3:])), str(rng.choice(LOS))], cross=True, **kw)
        add([str(rng.choice(LOS[1:]))], **kw)
        add(["den", "rsd", "d1", "len"], FLAT[:2], **kw)
        add(["len", str(rng.choice(LOS[1:])), "d2"], FLAT, cross=rng.random() < 0.5, **kw)
    out.sort(key=lambda c: -(len(set(c["names"]) & set(LOCAL[3:] + LOS[1:])) > 0) - (len(set(c["names"]) & set(LOS)) > 0))
    return out


def body(chk):
    rng = np.random.default_rng(chk.seed * 1009 + 6)
    cases = generate(rng, chk.n(1, 25))
    if chk.replaying:
        cases = [chk.replaying["case"]]

    def result(case, res):
        if chk.failed(case, res, "projecting the two-point function"):
            return
        for pt in res["ok"]["points"]:
            chk.maximum("difference/allowed " + case["label"], pt["err"])
            chk.maximum("allowed relative difference " + case["label"], pt["tol"])
            if not pt["err"] <= 1:
                chk.violation("value:" + case["label"], "%s at z=%.6g r=%.6g l=%d: multipole %.10g, projection of the two-point function "
                              "%.10g (%.2g of what is allowed)" % (case["label"], pt["z"], pt["r"], pt["l"], pt["got"], pt["ref"], pt["err"]), case)
            chk.saw("%s %.6g %.6g %d" % (case["label"], pt["z"], pt["r"], pt["l"]), nontrivial=pt["ref"] != 0, sample=pt)
            chk.count("two_point_values", pt["n"])

    chk.run_cases(cases, on_result=result, timeout=400)


if __name__ == "__main__":
    chk = core.Check("C06", __file__, "a distinct (contribution set, flat-sky options, z, r, l) whose multipole was compared with the projection",
                     assumptions=["sampled (Monte Carlo) multipoles are compared within eight times the spread over three sample sizes"])
    chk.main(body, min_nontrivial=60)
