"""C08: superposition and scaling relations between executions."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np  # noqa: E402
from vlib import core  # noqa: E402
from vlib import twopoint as TP  # noqa: E402

LOCAL = ["den", "rsd", "d1", "d2", "g1", "g2", "g3"]
LOS = ["len", "g4", "g5"]
POT = ["d2", "g1", "g2", "g3", "g4", "g5"]
FLAT = ("has_flatsky_local", "has_flatsky_local_nonlocal", "has_flatsky_nonlocal")


def observe(case, names, cross=False, amp=1.0, bias=1.0):
    """every statistic for one set of contributions, as a vector over points per sample size"""
    from vlib import coffeutil as U
    c = TP.configure(case)
    k, p = TP.spectrum_table(case["spec"])
    U.set_names(c, names)
    for f in FLAT:
        setattr(c, f, f in case["flat"])
    c.has_only_cross_correlations = cross
    b = dict(case["bias"])
    for i in "12":
        b["g" + i] = [bias * x for x in b["g" + i]]
    TP.set_biases(c, b)
    pts = case["points"]
    c.l = [0, 1, 2, 3, 4]
    c.sep = [x[1] for x in pts[:2]]
    c.z_min, c.z_max = [pts[0][0]], [pts[0][0] + 0.4]
    c.set_power_spectrum_linear(k, amp * p)
    out = []
    for n in case["sampling"]:
        c.integration_sampling = n
        v = [c.compute_corrfunc(z=z, r=r, mu=mu) for z, r, mu in pts]
        if case["multi"]:
            v += [c.compute_multipole(z=z, r=r, l=l) for (z, r, _), l in zip(pts[:4], (0, 1, 2, 4))]
            v += [m.value for m in c.compute_average_multipoles_bulk()]
        out.append(v)
    return np.array(out)


def superposition(case):
    """T(A+B+C) = T(A+B) + T(A+C) + T(B+C) - T(A) - T(B) - T(C), for all and for cross correlations only"""
    A, B, C = case["groups"]
    out = []
    for cross in ((False, True) if not set(A + B + C) & set(POT) else (bool(case["cross"]),)):
        def T(g):
            if cross and len(g) == 1:
                return 0.0 * full
            return observe(case, g, cross)
        full = observe(case, A + B + C, cross)
        pieces = [T(A + B), T(A + C), T(B + C), -T(A), -T(B), -T(C)]
        out.append(compare(full, sum(pieces), np.max([np.abs(x) for x in pieces + [full]], axis=0), case, "sum/cross" if cross else "sum/all"))
    return dict(points=sum(out, []))


def pair(case):
    """T(i+j) = auto(i) + auto(j) + cross(i, j)"""
    i, j = case["pair"]
    parts = [observe(case, [i]), observe(case, [j]), observe(case, [i, j], True)]
    full = observe(case, [i, j])
    return dict(points=compare(full, sum(parts), np.max([np.abs(x) for x in parts], axis=0), case, "pair"))


def scaling(case):
    names = case["names"]
    base = observe(case, names, case["cross"])
    out = compare(observe(case, names, case["cross"], amp=4.0), 4 * base, abs(4 * base), dict(case, exact=True), "amplitude")
    if names == ["den"]:
        out += compare(observe(case, names, case["cross"], bias=2.0), 4 * base, abs(4 * base), dict(case, exact=True), "bias2")
    elif "den" in names and len(names) == 2 and case["cross"]:
        out += compare(observe(case, names, case["cross"], bias=2.0), 2 * base, abs(2 * base), dict(case, exact=True), "bias1")
    return dict(points=out)


def compare(got, ref, scale, case, what):
    n = got.shape[1]
    out = []
    names = case.get("names") or case.get("pair") or sum(case["groups"], [])
    los = bool(set(names) & set(LOS))
    npts = len(case["points"])
    top = np.abs(scale).max(axis=0)
    for i in range(n):
        stat = "corrfunc" if i < npts else "multipole" if i < npts + 4 else "average"
        sc = top[i]
        # a multipole may vanish or be small by cancellation: its digits are those of the two-point function it is a mean of
        if stat == "multipole":
            sc = max(sc, top[i - npts])
        elif stat == "average":
            # ordered (bin, separation or multipole): any of the points used
            sc = max(sc, top[:2].max())
        d = got[:, i] - ref[:, i]
        if case.get("exact"):
            # doubling is exact in floating point, but the pieces are summed with fast-math
            tol = (1e-9 if not los else 1e-7) * sc
            err = np.abs(d).max()
        elif not los and stat != "average":
            tol = (1e-8 if stat == "corrfunc" else 2e-4) * sc
            err = np.abs(d).max()
        elif not los:
            tol = 5e-2 * sc + 8 * np.std(d)
            err = abs(d.mean())
        else:
            tol = (0.02 if stat == "corrfunc" else 0.1) * sc + 8 * np.std(d)
            err = abs(d.mean())
        out.append(dict(what=what, stat=stat, i=i, got=float(got[0, i]), ref=float(ref[0, i]), scale=float(sc),
                        err=float(err / tol) if tol > 0 else (0.0 if err == 0 else 1e99), tol=float(tol / sc) if sc else 0.0))
    return out


def refused(case):
    import coffe
    from vlib import coffeutil as U
    c = coffe.Coffe()
    U.set_names(c, [])
    c.sep, c.z_mean, c.z_min, c.z_max, c.mu, c.l = [50.0], [1.0], [0.9], [1.2], [0.3], [0]
    out = []
    for f in (lambda: c.compute_corrfunc(z=1.0, r=50.0, mu=0.2), lambda: c.compute_multipole(z=1.0, r=50.0, l=0),
              c.compute_corrfunc_bulk, c.compute_multipoles_bulk, c.compute_average_multipoles_bulk):
        try:
            out.append(repr(f()))
        except ValueError:
            out.append(None)
    return out


def generate(rng, n, thorough):
    from vlib import oracle as O
    out = []

    def case(fn, i, sampling, **kw):
        cosmo, spec = TP.cosmology(rng, simple=i == 0), TP.spectrum(rng)
        # distances well inside of every cosmology that can come up
        pts = []
        for _ in range(6):
            z = float(np.exp(rng.uniform(np.log(0.2), np.log(2.5))))
            pts.append([z, float(np.exp(rng.uniform(np.log(10), np.log(250)))), float(rng.uniform(-1, 1))])
        d = dict(fn=fn, set=cosmo, spec=spec, bias={k: list(v) for k, v in TP.biases(rng).items()}, points=pts, flat=[], sampling=sampling,
                 multi=True, cross=bool(rng.random() < 0.5))
        d.update(kw)
        out.append(d)

    def groups(names, size):
        x = [str(v) for v in rng.permutation(names)[:size]]
        a, b = sorted(rng.choice(np.arange(1, size), 2, replace=False).tolist())
        return [x[:a], x[a:b], x[b:]]

    few, many = [2000, 2600], [2500, 3000, 3600]
    for i in range(n):
        for flat in ((), FLAT, FLAT[:1]):
            case("superposition", i, few if not flat else few, groups=groups(["den", "rsd", "d1"], 3), flat=list(flat))
        case("superposition", i, many, groups=groups(["den", "rsd", "d1", "len"], 4))
        case("superposition", i, many, groups=groups(["den", "rsd", "d1", "len"], 4), flat=list(FLAT))
        case("superposition", i, few, groups=groups(LOCAL, int(rng.integers(4, 8))))
        case("superposition", i, many, groups=groups(LOCAL + LOS, 10), cross=i % 2 == 1)
        case("superposition", i, many, groups=groups(LOCAL + LOS, int(rng.integers(5, 9))), cross=i % 2 == 0)
        case("pair", i, few, pair=[str(x) for x in rng.permutation(["den", "rsd", "d1"])[:2]])
        case("pair", i, few, pair=[str(x) for x in rng.permutation(["den", "rsd", "d1"])[:2]], flat=list(FLAT[:1]))
        case("pair", i, few, pair=[str(x) for x in rng.permutation(LOCAL)[:2]])
        case("pair", i, many, pair=[str(rng.choice(LOCAL[:3])), "len"])
        case("pair", i, many, pair=[str(rng.choice(LOCAL[:3])), "len"], flat=[f for f in FLAT if rng.random() < 0.6])
        case("pair", i, many, pair=[str(rng.choice(LOCAL)), str(rng.choice(LOS[1:]))])
        case("pair", i, many, pair=[str(x) for x in rng.permutation(LOS)[:2]])
        case("scaling", i, few, names=["den"])
        case("scaling", i, few, names=["den", str(rng.choice(["rsd", "d1"]))], cross=True)
        case("scaling", i, few, names=["den", "len"], cross=True, flat=[f for f in FLAT if rng.random() < 0.5])
        case("scaling", i, few, names=["den", str(rng.choice(POT))], cross=True)
        case("scaling", i, few, names=["rsd", "d1", "len"], flat=[f for f in FLAT if rng.random() < 0.5])
        case("scaling", i, few, names=[str(x) for x in rng.permutation(LOCAL + LOS)[:4]])
    out.append(dict(fn="refused"))
    for c in out:
        names = c.get("names") or c.get("pair") or sum(c.get("groups", []), [])
        c["label"] = c["fn"] + ":" + "+".join(names) + ("/" + "+".join(f[12:] for f in c["flat"]) if c.get("flat") else "")
        c["cost"] = (10 if set(names) & set(POT) else 1) * (2 if set(names) & set(LOS) else 1) * len(c.get("groups", [])) or 3
    out.sort(key=lambda c: -c["cost"])
    return out


def body(chk):
    rng = np.random.default_rng(chk.seed * 1009 + 8)
    cases = generate(rng, chk.n(1, 14), chk.thorough)
    if chk.replaying:
        cases = [chk.replaying["case"]]

    def result(case, res):
        if chk.failed(case, res, "evaluating relations"):
            return
        if case["fn"] == "refused":
            chk.saw("refused")
            if any(res["ok"]):
                chk.violation("empty-set", "a request without contributions returned %r" % (res["ok"],), case)
            return
        for pt in res["ok"]["points"]:
            chk.maximum("difference/allowed %s %s" % (pt["what"], pt["stat"]), pt["err"])
            if not pt["err"] <= 1:
                chk.violation("relation:%s:%s" % (pt["what"], case["label"]), "%s, %s (%s), value %d: %.10g against %.10g expected (%.2g of what is allowed)" % (
                    case["label"], pt["stat"], pt["what"], pt["i"], pt["got"], pt["ref"], pt["err"]), case)
            chk.saw("%s %s %s %d %.6g" % (case["label"], pt["what"], pt["stat"], pt["i"], pt["got"]), nontrivial=pt["scale"] != 0, sample=pt)

    chk.run_cases(cases, on_result=result, timeout=500)


if __name__ == "__main__":
    chk = core.Check("C08", __file__, "a distinct (relation, contribution set, statistic, point) whose value is not zero",
                     assumptions=["sampled (Monte Carlo) values are compared within eight times the spread over three sample sizes"])
    chk.main(body, min_nontrivial=100)
