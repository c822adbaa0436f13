"""C03: full-sky local two-point terms against the operator-expectation oracle."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np  # noqa: E402
from vlib import core  # noqa: E402
from vlib import twopoint as TP  # noqa: E402

POT = ["d2", "g1", "g2", "g3"]
REL = 2e-4


def evaluate(case):
    """Observes the library at random points for a set of contributions (auto and/or cross)."""
    from vlib import coffeutil as U, oracle as O
    c = TP.configure(case)
    k, p = TP.spectrum_table(case["spec"])
    U.set_names(c, case["names"])
    if case.get("type"):
        c.integration_1d_type = case["type"]
    c.set_power_spectrum_linear(k, p)
    bg = U.background(c)
    rng = np.random.default_rng(case["seed"])
    ren = TP.Renormalization(k, p) if len(set(case["names"]) & set(POT)) > 0 else None
    K = O.Kernels(U.lookup(c), ren)
    out, n = [], 0
    for ib in range(case["nbias"]):
        b = TP.biases(rng)
        for key in b:           # switch single factors off now and then
            if rng.random() < 0.08:
                b[key] = (0.0, 0.0, 0.0)
        TP.set_biases(c, b)
        P = TP.populations(b)
        T = O.TwoPoint(bg, P[0], P[1], K)
        for ip in range(case["npoint"]):
            z, r, mu = TP.geometry(rng, bg.chi)
            for mode in case["modes"]:
                c.has_only_cross_correlations = mode == "cross"
                got = c.compute_corrfunc(z=z, r=r, mu=mu)
                pairs = [(A, B) for A in case["names"] for B in case["names"] if not (mode == "cross" and A == B)]
                vals = [T.pair(A, B, z, r, mu) for A, B in pairs]
                ref = sum(vals)
                scale = sum(abs(v) for v in vals)
                # the value where the geometry cancels is compared on the scale of its neighbourhood
                side = max(abs(sum(T.pair(A, B, z, r, m) for A, B in pairs)) for m in (0.35, -0.75))
                scale = max(scale, 0.2 * side)
                n += 1
                err = abs(got - ref) / scale if scale > 0 else (0.0 if got == 0 else np.inf)
                rec = dict(z=z, r=r, mu=mu, mode=mode, got=float(got), ref=float(ref), err=float(err) if np.isfinite(err) else 1e99,
                           side=float(side))
                if case["names"] == ["d1"]:
                    # the part of I^2_0, to recognise the known sign of the other one
                    _, c1, c2, u = O.geometry(bg, z, r, mu)
                    A = O.local_amplitude("d1", bg, P[0], bg.z_of_chi(c1)) * O.local_amplitude("d1", bg, P[1], bg.z_of_chi(c2))
                    part = float(A * u / 3 * c.integral(r=r, n=2, l=0))
                    rec["mirror"] = 2 * part - float(ref)
                out.append(rec)
    return dict(points=out, n=n)


SETS = ([dict(names=[a], modes=["all"]) for a in ("den", "rsd", "d1")] +
        [dict(names=list(x), modes=["cross"]) for x in itertools.combinations(("den", "rsd", "d1"), 2)] +
        [dict(names=[a] + POT, modes=["cross"]) for a in ("den", "rsd", "d1")])
POTSETS = [dict(names=POT, modes=["all", "cross"])]


def generate(rng, n, thorough):
    out = []
    for i in range(n):
        cosmo, spec = TP.cosmology(rng, simple=i == 0), TP.spectrum(rng)
        sets = SETS + POTSETS
        if thorough and i % 4 == 3:
            sets = SETS[:6] + [dict(names=list(x), modes=["cross"]) for x in itertools.combinations(["den", "rsd", "d1"] + POT, 2)
                               if set(x) & set(POT)] + [dict(names=[x], modes=["all"]) for x in POT]
        for s in sets:
            heavy = bool(set(s["names"]) & set(POT))
            out.append(dict(s, fn="evaluate", set=cosmo, spec=spec, seed=int(rng.integers(1 << 30)), nbias=6 if heavy else 8,
                            npoint=5, label="+".join(s["names"]) + "/" + s["modes"][0],
                            type="exponential" if rng.random() < 0.1 else ""))
    # long cases first
    out.sort(key=lambda c: -len(set(c["names"]) & set(POT)))
    return out


def body(chk):
    rng = np.random.default_rng(chk.seed * 1009 + 3)
    cases = generate(rng, chk.n(4, 60), chk.thorough)
    if chk.replaying:
        cases = [chk.replaying["case"]]

    def result(case, res):
        if chk.failed(case, res, "evaluating the two-point function"):
            return
        for pt in res["ok"]["points"]:
            # the library's two-dimensional renormalization table is coarse (about 50 Mpc)
            tol = REL if pt["z"] > 0.2 or not set(case["names"]) & set(POT) else 2e-3
            if pt["err"] > tol and "mirror" in pt and abs(pt["got"] - pt["mirror"]) <= tol * max(abs(pt["mirror"]), pt["side"]):
                chk.violation("d1-d1-sign", "d1-d1 has the opposite sign of its I^2_2 part", case)
                chk.count("points_with_known_d1_d1_sign")
                chk.saw("%s %.6g %.6g %.6g" % (case["label"], pt["z"], pt["r"], pt["mu"]))
                continue
            if pt["err"] < 1:
                chk.maximum("relative_difference " + case["label"], pt["err"])
            if not pt["err"] <= tol:
                chk.violation("value:%s:%s" % ("+".join(case["names"]), pt["mode"]),
                              "%s (%s) at z=%.6g r=%.6g mu=%.6g: the library gives %.10g, the operators %.10g (%.2g of the scale)" % (
                                  "+".join(case["names"]), pt["mode"], pt["z"], pt["r"], pt["mu"], pt["got"], pt["ref"], pt["err"]), case)
            chk.saw("%s %.6g %.6g %.6g" % (case["label"], pt["z"], pt["r"], pt["mu"]), nontrivial=pt["ref"] != 0, sample=pt)

    chk.run_cases(cases, on_result=result, timeout=300)


if __name__ == "__main__":
    chk = core.Check("C03", __file__, "a distinct (contribution set, z, r, mu) with random biases at which library and oracle "
                     "were compared and the value is not zero",
                     assumptions=["the radial integrals themselves are taken from the library (C02 decides them)"])
    chk.main(body, min_nontrivial=100)
