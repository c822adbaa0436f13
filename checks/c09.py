"""C09: exchange of the populations, evenness for identical populations."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np  # noqa: E402
from vlib import core  # noqa: E402
from vlib import twopoint as TP  # noqa: E402

LOCAL = ["den", "rsd", "d1", "d2", "g1", "g2", "g3"]
LOS = ["len", "g4", "g5"]
POT = ["d2", "g1", "g2", "g3", "g4", "g5"]
FLAT = ("has_flatsky_local", "has_flatsky_local_nonlocal", "has_flatsky_nonlocal")
LS = [0, 1, 2, 3, 4]


def exchange(case):
    from vlib import coffeutil as U
    c = TP.configure(case)
    k, p = TP.spectrum_table(case["spec"])
    U.set_names(c, case["names"])
    for f in FLAT:
        setattr(c, f, f in case["flat"])
    c.has_only_cross_correlations = case["cross"]
    c.set_power_spectrum_linear(k, p)
    los = bool(set(case["names"]) & set(LOS))
    rng = np.random.default_rng(case["seed"])
    bg = U.background(c)
    out = []
    for _ in range(case["nbias"]):
        b = TP.biases(rng, equal=case["equal"])
        swap = {key[0] + ("2" if key[1] == "1" else "1"): v for key, v in b.items()}
        pts = [TP.geometry(rng, bg.chi, zlo=0.1, zhi=3.0, rlo=8.0, rhi=300.0) for _ in range(case["npoint"])]
        c.sep, c.z_min, c.z_max, c.l = [40.0, 110.0], [pts[0][0]], [pts[0][0] + 0.3], LS

        def run(bias, sign):
            TP.set_biases(c, bias)
            F, M, A = [], [], []
            for n in ((2500, 3000, 3600) if los else (2500,)):
                c.integration_sampling = n
                F.append([c.compute_corrfunc(z=z, r=r, mu=sign * mu) for z, r, mu in pts])
                M.append([[c.compute_multipole(z=z, r=r, l=l) for l in LS] for z, r, mu in pts[:2]] if case["multi"] else [])
                A.append([m.value for m in c.compute_average_multipoles_bulk()] if case["average"] else [])
            return np.array(F), np.array(M), np.array(A)
        a, d = run(b, 1), run(swap, -1)
        parity = np.array([(-1.0) ** l for l in LS])
        top = np.abs(a[0]).max(0) + np.abs(d[0]).max(0)

        def add(what, got, ref, scale, exact):
            diff = got - ref
            if exact:
                tol, err = (1e-8 if exact == 1 else 1e-4) * scale, np.abs(diff).max()
            else:
                tol, err = 8 * np.std(diff) + (0.03 if what == "corrfunc" else 0.1) * scale, abs(diff.mean())
            out.append(dict(what=what, got=float(got[0]), ref=float(ref[0]), scale=float(scale), err=float(err / tol) if tol > 0 else float(err > 0)))
        for i in range(len(pts)):
            add("corrfunc", a[0][:, i], d[0][:, i], top[i], 0 if los else 1)
        if case["multi"]:
            for i in range(2):
                for j, l in enumerate(LS):
                    add("multipole l=%d" % l, a[1][:, i, j], parity[j] * d[1][:, i, j], max(top[i], np.abs(a[1][:, i, j]).max()), 0 if los else 2)
        if case["average"]:
            coord = [(m.l, m.r) for m in c.compute_average_multipoles_bulk()]
            for j, (l, r) in enumerate(coord):
                same = [q for q, x in enumerate(coord) if x[1] == r]
                add("average l=%d" % l, a[2][:, j], (-1.0) ** l * d[2][:, j], np.abs(a[2][:, same]).max(), 0)
    return dict(points=out)


def generate(rng, n):
    out = []

    def add(names, flat=(), **kw):
        d = dict(fn="exchange", set=TP.cosmology(rng), spec=TP.spectrum(rng), seed=int(rng.integers(1 << 30)), names=names, flat=list(flat), cross=False,
                 equal=False, nbias=2, npoint=4, multi=True, average=False)
        d.update(kw)
        d["label"] = "+".join(names) + ("/" + "+".join(f[12:] for f in d["flat"]) if d["flat"] else "") + ("/equal" if d["equal"] else "")
        d["cost"] = (10 if set(names) & set(POT) else 1) * (4 if set(names) & set(LOS) else 1)
        out.append(d)

    def some(of, k):
        return [str(x) for x in rng.permutation(of)[:k]]

    for i in range(n):
        for a, b in (("den", "rsd"), ("den", "d1"), ("rsd", "d1")):
            add([a, b], cross=bool(rng.random() < 0.7), nbias=4)
            add([a, b], FLAT[:1], nbias=3)
        add(["den", "rsd", "d1"], average=True)
        add(["den", "rsd", "d1"], equal=True, average=True)
        add(LOCAL, nbias=4)
        add(LOCAL, equal=True)
        for _ in range(2):
            add(some(LOCAL[:3], 1) + some(LOCAL[3:], 1), cross=True, nbias=4)
        add(some(LOCAL, 4), average=True)
        add(["den", "len"], cross=True, nbias=3, npoint=3)
        add([str(rng.choice(["rsd", "d1"])), "len"], cross=True, nbias=3, npoint=3)
        add(["len"], nbias=3, npoint=3)
        add(["den", "rsd", "len"], equal=True, npoint=3)
        add(["den", "len"], FLAT, nbias=3)
        add(["den", "rsd", "len"], FLAT, equal=True)
        add(["den", "rsd", "len"], [f for f in FLAT if rng.random() < 0.5], average=True, nbias=1)
        add(some(LOCAL, 1) + some(LOS[1:], 1), cross=True, npoint=3)
        add(some(LOCAL, 1) + some(LOS, 1), cross=True, npoint=3)
        add(some(LOS, 2), npoint=3, cross=bool(rng.random() < 0.5))
        add(some(LOCAL + LOS, 6), npoint=2)
        add(LOCAL + LOS, equal=bool(rng.random() < 0.5), npoint=2, nbias=1)
    out.sort(key=lambda d: -d["cost"])
    return out


def body(chk):
    rng = np.random.default_rng(chk.seed * 1009 + 9)
    cases = generate(rng, chk.n(1, 20))
    if chk.replaying:
        cases = [chk.replaying["case"]]

    def result(case, res):
        if chk.failed(case, res, "evaluating both orders"):
            return
        for pt in res["ok"]["points"]:
            stat = pt["what"].split()[0]
            los = "los" if set(case["names"]) & set(LOS) else "local"
            chk.maximum("difference/allowed %s %s" % (stat, los), pt["err"])
            if not pt["err"] <= 1:
                chk.violation("exchange:%s:%s" % (pt["what"], case["label"]), "%s, %s: %.10g, after the exchange %.10g (size %.4g; %.3g of what is allowed)" % (
                    case["label"], pt["what"], pt["got"], pt["ref"], pt["scale"], pt["err"]), case)
            chk.saw("%s %s %.6g" % (case["label"], pt["what"], pt["got"]), nontrivial=pt["scale"] != 0, sample=pt)

    chk.run_cases(cases, on_result=result, timeout=500)


if __name__ == "__main__":
    chk = core.Check("C09", __file__, "a distinct (contribution set, statistic, value) of non-zero size, computed before and after the exchange",
                     assumptions=["sampled (Monte Carlo) values are compared within eight times the spread over three sample sizes plus 3 % (multipoles: 10 %) of the size"])
    chk.main(body, min_nontrivial=150)
