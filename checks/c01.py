"""C01: background quantities against an independent solution of the Friedmann and growth equations."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np  # noqa: E402
from vlib import core  # noqa: E402

# relative tolerance; the library's defaults are accurate to about a tenth of these
TOL = dict(scale_factor=1e-6, hubble_rate=1e-5, hubble_rate_conformal=1e-5, hubble_rate_conformal_derivative=1e-4,
           growth_factor=1e-5, growth_rate=5e-5, comoving_distance=1e-5)


def scan(case):
    import coffe
    from vlib import coffeutil as U
    c = coffe.Coffe()
    for k, v in case["set"]:
        setattr(c, k, v)
    bg = U.background(c)
    rng = np.random.default_rng(case["seed"])
    zs = np.concatenate([[0.0, 15.0, 1e-4], rng.uniform(0, 15, case["nz"]), rng.uniform(0, 3, case["nz"]),
                         np.linspace(0, 15, c.background_sampling)[rng.integers(0, c.background_sampling, 10)]])
    n = c.background_sampling
    worst = {}
    want = dict(scale_factor=bg.a, hubble_rate=bg.H, hubble_rate_conformal=bg.Hc,
                hubble_rate_conformal_derivative=bg.Hc_prime, growth_factor=bg.D1, growth_rate=bg.f,
                comoving_distance=bg.chi)
    for q, fn in want.items():
        got = np.array([getattr(c, q)(float(z)) for z in zs])
        ref = np.array(fn(zs), float)
        scale = np.abs(ref)
        if q == "hubble_rate_conformal_derivative":   # it crosses zero
            scale = np.maximum(scale, 0.3 * bg.Hc(zs) ** 2)
        if q == "comoving_distance":
            scale = np.maximum(scale, 1e-3)
        if q == "growth_rate":
            scale = np.maximum(scale, 0.05)
        err = np.abs(got - ref) / scale
        if not np.all(np.isfinite(got)):
            err = np.where(np.isfinite(got), err, np.inf)
        i = int(np.argmax(err))
        worst[q] = (float(err[i]), float(zs[i]), float(got[i]), float(ref[i]))
    z, dz = float(rng.uniform(0.1, 5)), 0.05
    ms = c.maximum_separation(z, dz)
    ref = 2 * (bg.chi(z + dz) - bg.chi(z))
    worst["maximum_separation"] = (float(abs(ms / ref - 1)), z, float(ms), float(ref))
    # the totals reported by the object are those of the equations
    closure = c.omega_cdm + c.omega_baryon + c.omega_nu + c.omega_gamma + c.omega_de - 1
    return dict(worst=worst, n=len(zs) * len(want), closure=float(closure), d0=float(c.growth_factor(0.0)), bins=n)


def generate(rng, n):
    out = []
    for i in range(n):
        om = float(rng.uniform(0.1, 0.6))
        b = float(rng.uniform(0.01, 0.3) * om)
        s = [["omega_m", om], ["omega_baryon", b], ["h", float(rng.uniform(0.4, 1.1))]]
        if i % 2:
            s.append(["w0", float(rng.uniform(-1.5, -0.5))])
        if i % 3 == 1:
            s.append(["wa", float(rng.uniform(-0.6, 0.3))])
        if i % 3 == 2:
            s.append(["omega_gamma", float(rng.choice([0.0, 1e-4, 3e-3, 0.02]))])
        if i % 4 == 3:
            # at most a third of the matter
            s.append(["m_ncdm", float(min(rng.uniform(0.05, 3.0), om / 3 * 93.14 * s[2][1] ** 2))])
        bins = 10000
        if i % 5 == 4:
            bins = int(rng.choice([1000, 3000, 30000]))
            s.append(["background_sampling", bins])
        if i % 7 == 5:
            s.append(["integration_1d_type", "exponential"])
        if i % 6 == 5:
            rng.shuffle(s)
        out.append(dict(fn="scan", set=s, seed=int(rng.integers(1 << 30)), nz=40, bins=bins))
    return out


def body(chk):
    rng = np.random.default_rng(chk.seed * 1009 + 1)
    cases = [dict(fn="scan", set=[], seed=7, nz=200, bins=10000)]
    cases += generate(rng, chk.n(60, 1500))
    if chk.replaying:
        cases = [chk.replaying["case"]]

    def result(case, res):
        if chk.failed(case, res, "evaluating the background"):
            return
        r = res["ok"]
        for q, (err, z, got, ref) in r["worst"].items():
            # linear growth of the tables' interpolation error with the step
            coarse = max(1.0, 10000.0 / case["bins"])
            tol = TOL.get(q, 1e-4) * coarse ** 2
            chk.maximum(q, err / tol)
            if not err <= tol:
                chk.violation("value:%s" % q, "%s(%.6g) is %.10g, the equations give %.10g (relative difference %.2g > %.2g); "
                              "cosmology %s" % (q, z, got, ref, err, tol, case["set"]), case)
        if abs(r["closure"]) > 1e-9:
            chk.violation("closure", "the energy fractions sum to 1%+g for %s" % (r["closure"], case["set"]), case)
        chk.saw(repr(case["set"]), sample=dict(set=case["set"], worst={k: v[0] for k, v in r["worst"].items()}),
                count=r["n"])
        chk.count("cosmologies")

    chk.run_cases(cases, on_result=result)


if __name__ == "__main__":
    chk = core.Check("C01", __file__, "a distinct cosmology/sampling configuration whose seven tables were evaluated at "
                     "random redshifts and at table nodes", assumptions=[
                         "growth is started in matter domination and neglects radiation, as the library documents",
                         "massive neutrinos dilute as matter in the Hubble rate and do not cluster"])
    chk.main(body, min_nontrivial=10)
