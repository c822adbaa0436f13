"""C07: redshift-averaged multipoles against averages of fixed-redshift multipoles."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np  # noqa: E402
from vlib import core  # noqa: E402
from vlib import twopoint as TP  # noqa: E402

LOCAL = ["den", "rsd", "d1", "d2", "g1", "g2", "g3"]
LOS = ["len", "g4", "g5"]
FLAT = ("has_flatsky_local", "has_flatsky_local_nonlocal", "has_flatsky_nonlocal")


def evaluate(case):
    from vlib import coffeutil as U, oracle as O
    c = TP.configure(case)
    k, p = TP.spectrum_table(case["spec"])
    U.set_names(c, case["names"])
    for f in FLAT:
        setattr(c, f, f in case["flat"])
    c.has_only_cross_correlations = case["cross"]
    c.set_power_spectrum_linear(k, p)
    bg = U.background(c)
    rng = np.random.default_rng(case["seed"])
    los = bool(set(case["names"]) & set(LOS))
    out = []
    for ib in range(case["nbias"]):
        b = TP.biases(rng)
        TP.set_biases(c, b)
        nz = 3
        z1 = np.exp(rng.uniform(np.log(0.2), np.log(1.5), nz))
        z2 = z1 + rng.uniform(0.15, 0.5, nz)
        seps = rng.uniform(20, 220, 2)
        if rng.random() < 0.5:     # a bin that is exactly as deep as one of the separations
            z2[0] = bg.z_of_chi(bg.chi(z1[0]) + seps[0]) + 1e-7
        ls = rng.permutation(5)[:3].tolist()
        c.l = [int(x) for x in ls]
        c.sep = seps.tolist()
        c.z_min, c.z_max = z1.tolist(), z2.tolist()
        res = []
        for n in case["sampling"]:
            c.integration_sampling = n
            res.append([(m.z_min, m.z_max, m.r, m.l, m.value) for m in c.compute_average_multipoles_bulk()])
        got = np.array([[x[4] for x in y] for y in res])
        c.integration_sampling = 3000
        x, w = np.polynomial.legendre.leggauss(5 if los else 8)
        for i, (za, zb, r, l, _) in enumerate(res[0]):
            lo, hi = bg.z_of_chi(bg.chi(za) + r / 2), bg.z_of_chi(bg.chi(zb) - r / 2)
            zz = lo + (hi - lo) * (x + 1) / 2
            val = np.array([c.compute_multipole(z=float(z), r=r, l=l) for z in zz])
            weight = np.array([O.H0 * bg.h / bg.H(z) for z in zz])
            ref = float(np.sum(w * val * weight) / 2)
            # the size of the correlation in the bin, for multipoles that nearly vanish
            if i == 0 or res[0][i - 1][2] != r or res[0][i - 1][0] != za:
                side = np.max([abs(c.compute_corrfunc(z=float(zz[2]), r=r, mu=m)) * weight[2] for m in (-0.8, 0.1, 0.8)])
            v = got[:, i]
            tol = (12 if los else 8) * np.std(v) + (2e-3 if not los else 3e-2) * abs(ref) + (2 * l + 1) * side * (1e-3 if not los else 3e-2)
            out.append(dict(zmin=za, zmax=zb, r=r, l=l, got=float(np.mean(v)), ref=ref, err=float(abs(np.mean(v) - ref) / tol) if tol else 0.0,
                            tol=float(tol / (abs(ref) + (2 * l + 1) * side)) if tol else 0.0))
    return dict(points=out)


def generate(rng, n):
    out = []
    for i in range(n):
        cosmo, spec = TP.cosmology(rng, simple=i == 0), TP.spectrum(rng)

        def add(names, flat=(), cross=False, **kw):
            out.append(dict(fn="evaluate", set=cosmo, spec=spec, seed=int(rng.integers(1 << 30)), names=names, flat=list(flat), cross=bool(cross),
                            label="+".join(names) + ("/" + "+".join(x[12:] for x in flat) if flat else ""),
                            **dict(dict(nbias=2, sampling=[2500, 3000, 3600]), **kw)))
        for _ in range(3):
            add(sorted(rng.choice(["den", "rsd", "d1"], size=rng.integers(1, 4), replace=False).tolist()))
        add(["den", "rsd", "d1"], FLAT[:1])
        add(["d1"])
        add(sorted(rng.choice(LOCAL, size=rng.integers(2, 5), replace=False).tolist()), cross=rng.random() < 0.4)
        kw = dict(nbias=1, sampling=[7000, 8500, 10000])
        add([str(rng.choice(["den", "rsd", "d1"])), "len"], cross=True, **kw)
        add(["len"], **kw)
        add(["den", "len"], FLAT, **kw)
        add(["len"], FLAT[2:], **kw)
        add([str(rng.choice(LOCAL[3:])), str(rng.choice(LOS))], cross=True, **kw)
        add([str(rng.choice(LOS[1:]))], **kw)
    out.sort(key=lambda c: -(len(set(c["names"]) & set(LOCAL[3:] + LOS[1:])) > 0) - (len(set(c["names"]) & set(LOS)) > 0))
    return out


def body(chk):
    rng = np.random.default_rng(chk.seed * 1009 + 7)
    cases = generate(rng, chk.n(1, 25))
    if chk.replaying:
        cases = [chk.replaying["case"]]

    def result(case, res):
        if chk.failed(case, res, "averaging multipoles"):
            return
        for pt in res["ok"]["points"]:
            chk.maximum("difference/allowed " + case["label"], pt["err"])
            chk.maximum("allowed relative difference " + case["label"], pt["tol"])
            if not pt["err"] <= 1:
                chk.violation("value:" + case["label"], "%s in %.6g<z<%.6g r=%.6g l=%d: averaged multipole %.10g, average of the multipoles "
                              "%.10g (%.2g of what is allowed)" % (case["label"], pt["zmin"], pt["zmax"], pt["r"], pt["l"], pt["got"], pt["ref"], pt["err"]), case)
            chk.saw("%s %.6g %.6g %.6g %d" % (case["label"], pt["zmin"], pt["zmax"], pt["r"], pt["l"]), nontrivial=pt["ref"] != 0, sample=pt)

    chk.run_cases(cases, on_result=result, timeout=400)


if __name__ == "__main__":
    chk = core.Check("C07", __file__, "a distinct (contribution set, bin, r, l) whose averaged multipole was compared with the average",
                     assumptions=["averaged multipoles are Monte Carlo estimates: compared within eight times the spread over three sample sizes"])
    chk.main(body, min_nontrivial=60)
