"""C02: Fourier-Bessel integrals and spectrum look-ups against direct quadrature of the same table."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np  # noqa: E402
from vlib import core  # noqa: E402

NL = [(0, 0), (0, 2), (0, 4), (1, 1), (1, 3), (2, 0), (2, 2), (3, 1), (4, 0)]


def table(case):
    from vlib import oracle as O
    k = np.geomspace(case["kmin"], case["kmax"], case["nk"])
    p = O.bbks(k, omega_m=case["om"], h=case["h"], n_s=case["ns"], amp=case["amp"])
    if case["wiggle"]:
        p = p * (1 + case["wiggle"] * np.sin(k * 150.0) * np.exp(-(k / 0.15) ** 2))
    if case["kind"] == "windowed":
        p = p * np.exp(-(k / case["cut"]) ** 2) / (1 + (1e-4 / k) ** 4)
    return k, p


def akima(k, p):
    # the library interpolates with Akima splines; the oracle must see the same function between the points
    from vlib import oracle as O
    return O.akima(k, p)


def integrals(case):
    import coffe
    from vlib import oracle as O
    k, p = table(case)
    c = coffe.Coffe(has_density=True, has_d2=case["divergent"])
    if case["bins"]:
        c.integrals_fftlog_sampling = case["bins"]
    if case["type"]:
        c.integration_1d_type = case["type"]
    c.set_power_spectrum_linear(k, p)
    D = O.DirectIntegrals(k, p, k[0], k[-1], spline=akima(k, p))
    rng = np.random.default_rng(case["seed"])
    windowed = case["kind"] == "windowed"
    lo, hi = (1.05, 800.0) if windowed else (6.0, 250.0)
    rs = list(np.exp(rng.uniform(np.log(lo), np.log(hi), case["nr"])))
    small = [0.0] + list(np.exp(rng.uniform(np.log(1e-5), np.log(0.6), 5)))
    worst, n = {}, 0
    scale_c = coffe.Coffe(has_density=True, has_d2=case["divergent"])
    scale_c.integrals_fftlog_sampling = c.integrals_fftlog_sampling
    scale_c.integration_1d_type = c.integration_1d_type
    scale_c.set_power_spectrum_linear(k, 3.7 * p)
    for a, b in NL if case["divergent"] else NL[:-1]:
        grid = rs + (small if (a, b) != (4, 0) else [0.01, 0.1, 0.5])
        if (a, b) == (4, 0) or a > b:
            grid = grid + [1500.0, 3000.0] * windowed
        for r in grid:
            got = c.integral(r=float(r), n=a, l=b)
            ref = D.raw(a, b, r)
            amp = abs(ref)
            if r > 1:     # zero crossings and oscillations
                amp = max(amp, abs(D.raw(a, b, r * 1.07)), abs(D.raw(a, b, r / 1.07)))
            elif r > 0:   # between the points of the coarse table below 1 Mpc
                amp = max(amp, 0.05 * abs(D.raw(a, b, 1.0)))
            amp = max(amp, 1e-30)
            err = abs(got - ref) / amp
            n += 1
            regime = "zero" if r == 0 else "small" if r < 1 else ("mid" if r <= 300 else "large")
            if not np.isfinite(err):
                err = np.inf
            key = "%d%d-%s" % (a, b, regime)
            if err > worst.get(key, (-1,))[0]:
                worst[key] = (float(err), float(r), float(got), float(ref))
            s = scale_c.integral(r=float(r), n=a, l=b)
            e = abs(s - 3.7 * got) / (3.7 * amp)
            key = "scaling-%s" % regime
            if not e <= worst.get(key, (-1,))[0]:
                worst[key] = (float(e), float(r), float(s), float(3.7 * got))
    # look-ups
    sp = akima(k, p)
    for i in range(30):
        kk = float(np.exp(rng.uniform(np.log(k[0]) + 1e-6, np.log(k[-1]) - 1e-6)))
        z1, z2 = (float(x) for x in rng.uniform(0, 10, 2))
        g = c.power_spectrum(kk, z1)
        w = float(sp(kk)) * c.growth_factor(z1) ** 2
        x = c.cross_spectrum(kk, z1, z2)
        y = float(sp(kk)) * c.growth_factor(z1) * c.growth_factor(z2)
        for key, u, v in (("power_spectrum", g, w), ("cross_spectrum", x, y)):
            e = abs(u - v) / max(abs(v), 1e-12 * np.max(p))
            if not e <= worst.get(key, (-1,))[0]:
                worst[key] = (float(e), kk, u, v)
        n += 2
    j = int(rng.integers(0, len(k)))
    e = abs(c.power_spectrum(float(k[j]), 0.0) / p[j] - 1) if p[j] > 1e-12 * np.max(p) else 0
    if not e <= worst.get("power_spectrum", (-1,))[0]:
        worst["power_spectrum"] = (float(e), float(k[j]), c.power_spectrum(float(k[j]), 0.0), float(p[j]))
    # a table given at another redshift
    z = float(rng.uniform(0.2, 3))
    other = coffe.Coffe(has_density=True)
    other.set_power_spectrum_linear(k, p * other.growth_factor(z) ** 2, z)
    kk = float(np.exp(rng.uniform(np.log(1e-3), np.log(1))))
    u, v = other.power_spectrum(kk, z), float(sp(kk)) * other.growth_factor(z) ** 2
    worst["given-at-z"] = (abs(u / v - 1), kk, u, v)
    return dict(worst=worst, n=n)


def tolerance(case, key):
    if key.startswith("scaling"):
        return 2e-4
    if key in ("power_spectrum", "cross_spectrum", "given-at-z"):
        return 1e-6
    nl, regime = key.split("-")
    if nl == "40":
        return 2e-4
    if regime == "zero":
        return 5e-5
    if regime == "small":
        return 6e-2 if nl[0] < nl[1] else 5e-3
    fine = case["bins"] in (0, 10000, 20000)
    if case["kind"] == "windowed":
        base = 1e-3 if regime == "mid" else 1e-2
        if nl == "00":
            base *= 4
        return base if fine else 30 * base
    return 1e-1 if nl == "00" else 2e-2


def generate(rng, n):
    out = []
    for i in range(n):
        kind = "windowed" if i % 3 else "plain"
        out.append(dict(fn="integrals", kind=kind, kmin=1e-5, kmax=float(rng.uniform(8, 20)), nk=int(rng.choice([600, 1200])),
                        om=float(rng.uniform(0.2, 0.4)), h=float(rng.uniform(0.6, 0.8)), ns=float(rng.uniform(0.9, 1.0)),
                        amp=float(10 ** rng.uniform(4, 7.5)), wiggle=float(rng.choice([0, 0.05])), cut=float(rng.uniform(0.5, 2)),
                        bins=int(rng.choice([0, 0, 6000, 20000])), type=str(rng.choice(["", "", "exponential"])),
                        seed=int(rng.integers(1 << 30)), nr=12, divergent=i % 4 == 1))
    return out


def body(chk):
    rng = np.random.default_rng(chk.seed * 1009 + 2)
    cases = generate(rng, chk.n(24, 600))
    if chk.replaying:
        cases = [chk.replaying["case"]]

    def result(case, res):
        if chk.failed(case, res, "evaluating Fourier-Bessel integrals"):
            return
        for key, (err, x, got, ref) in res["ok"]["worst"].items():
            tol = tolerance(case, key)
            chk.maximum(case["kind"][0] + "-" + key, err / tol)
            if not err <= tol:
                chk.violation("value:%s" % key, "%s at %.8g: the library gives %.10g, the quadrature %.10g (difference %.2g of the "
                              "local amplitude, allowed %.2g)" % (key, x, got, ref, err, tol), case)
        chk.saw("%s" % case["seed"], sample=dict(kind=case["kind"], kmax=case["kmax"], worst={k: v[0] for k, v in
                                                                                         res["ok"]["worst"].items()}),
                count=res["ok"]["n"])
        chk.count("spectra-" + case["kind"])

    chk.run_cases(cases, on_result=result, timeout=200)


if __name__ == "__main__":
    chk = core.Check("C02", __file__, "a distinct spectrum table for which all nine integrals were compared with quadrature",
                     assumptions=["the function between table points is the Akima interpolant (the library's default)"])
    chk.main(body, min_nontrivial=5)
