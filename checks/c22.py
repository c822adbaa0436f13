"""C22: hostile arguments and configurations; the process survives and what comes back is finite or an exception."""
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np  # noqa: E402
from vlib import apimodel as A  # noqa: E402
from vlib import core  # noqa: E402

SCALARS = ["nan", "inf", "-inf", "0", "0.0", "-0.0", "-1", "-1e-300", "5e-324", "1e308", "-1e308", "1e-12", "15", "15.0", "14.999999", "15.0000001", "1500", "1500.0",
           "1e4", "25000.0", "25000", "0.5", "1", "2", "3", "100.0", "True", "False", "None", "'a'", "''", "b'1'", "[1.0]", "(0.5, 0.6)", "{}", "1j", "object()",
           "np.float64(0.7)", "np.float32(0.7)", "np.int64(1)", "np.array(0.5)", "np.array([0.5, 0.6])", "10 ** 30", "2 ** 63", "-2 ** 31", "2 ** 31", "lambda: 1"]
Z1 = ["scale_factor", "hubble_rate", "hubble_rate_conformal", "hubble_rate_conformal_derivative", "comoving_distance", "growth_factor", "growth_rate"] + \
     ["galaxy_bias%d" % i for i in (1, 2, 3, 4)] + ["magnification_bias1", "magnification_bias2", "evolution_bias1", "evolution_bias2"]
LISTS = ["sep", "mu", "l", "z_mean", "deltaz", "number_density1", "number_density2", "fsky", "pixelsize", "z_min", "z_max"]
BULKS = ["compute_corrfunc_bulk", "compute_multipoles_bulk", "compute_average_multipoles_bulk", "compute_covariance_bulk", "compute_average_covariance_bulk"]
# what can be asked of the setters and costs no unreasonable time or memory
EDGE = {
    "omega_cdm": ["0.0", "0", "-0.1", "0.949", "1e-8", "-5.0"], "omega_m": ["0.0", "0.05", "0.01", "0.99991", "-0.5", "1e-9"], "omega_baryon": ["0.0", "0.3", "0.5", "-0.2"],
    "omega_gamma": ["0.0", "0.7", "-0.3"], "h": ["1e-3", "100.0", "0.0", "0", "1e-300", "5.0"], "w0": ["0.0", "100.0", "-100.0", "-3.0", "0.5"],
    "wa": ["-100.0", "100.0", "5.0"], "n_s": ["-100.0", "100.0", "0.0"], "sigma8": ["0.0", "-1.0", "100.0"], "A_s": ["0.0", "-1e-9", "100.0", "1e-300"],
    "T_cmb": ["0.0", "-2.7", "100.0"], "N_ur": ["0.0", "-100.0", "100.0"], "m_ncdm": ["0.0", "-1.0", "100.0", "30.0"], "YHe": ["0.0", "-1.0"], "N_ncdm": ["-100", "0", "100"],
    "k_min": ["0.0", "1e-300", "1e-3", "1e-12"], "k_max": ["0.1", "1000.0"], "integration_1d_prec": ["0.0", "1.0", "1e-300", "1e-12", "0.5"],
    "integration_1d_type": ["'gsl'", "'exponential'", "1", "2"], "integration_sampling": ["0", "1", "2", "10", "100"], "background_sampling": ["0", "1", "2", "3", "4", "5", "8"],
    "integrals_fftlog_sampling": ["0", "1", "2", "3", "4", "5", "7", "64", "65"], "covariance_integration_sampling": ["0", "1", "2", "3", "4", "5", "6", "7", "8", "64", "65"],
    "covariance_integration_method": ["'standard'", "'fftlog'"], "covariance_interpolation_method": ["'bilinear'", "'bicubic'"],
    "pk_type": ["'linear'", "'linear_class'", "'halofit'", "'hmcode'"], "has_binned_covariance": ["True"],
    "sep": ["[]", "[1e-12]", "[9999.0]", "[1e-3, 1e3]", "[5000.0]", "[50.0, 50.0]", "[100.0, 20.0]", "[1500.0]", "[3.0] * 30", "[1e-300]"],
    "mu": ["[]", "[0.0]", "[0.9999999999999999]", "[-0.9999999999999999]", "[0.5, 0.5, -0.5]", "[5e-324]"],
    "l": ["[]", "[0]", "[9]", "[1, 3, 5, 7, 9]", "[0, 0]", "list(range(10))"],
    "z_mean": ["[]", "[0.0]", "[9.99]", "[1e-9]", "[0.5, 0.5]", "[0.01]", "[3.0, 0.2]"],
    "deltaz": ["[]", "[0.0]", "[9.99]", "[0.1, 0.1, 0.1]", "[1e-300]", "[5.0]"], "fsky": ["[]", "[1.0]", "[1e-300]", "[0.2, 0.2]"],
    "pixelsize": ["[]", "[999.0]", "[1e-300]", "[1e-6]", "[1.0, 1.0]"], "number_density1": ["[]", "[0.0]", "[9.9]", "[1e-300]", "[0.1, 0.1]"],
    "number_density2": ["[]", "[0.0]", "[1e-320]"], "z_min": ["[]", "[0.0]", "[9.99]", "[1.5]", "[0.9, 1.0]"], "z_max": ["[]", "[0.0]", "[9.99]", "[0.9]", "[0.91]"],
    "covariance_populations": ["[4, 4, 4, 4]", "[1, 2, 3, 4]"], "has_only_cross_correlations": ["True"],
}
BIAS = ["galaxy_bias%d" % i for i in (1, 2, 3, 4)] + ["magnification_bias1", "magnification_bias2", "evolution_bias1", "evolution_bias2"]
TABLES = ["([0, 1, 2, 3, 4], [1, 1, 1, 1, 1])", "(np.linspace(0, 0.5, 20), np.ones(20))", "(np.linspace(2, 3, 20), np.ones(20))", "(np.linspace(0, 15, 6), np.zeros(6))",
          "(np.linspace(0, 1e-300, 6), np.ones(6))", "(np.linspace(0, 20, 6), np.full(6, 1e300))", "(np.linspace(-5, 20, 60), np.full(60, -2.0))",
          "(np.linspace(0, 20, 6), np.full(6, 1e-320))", "(np.linspace(0, 15, 3000), np.sin(np.arange(3000)))", "(5, 6)", "(None, None)", "([], [])", "(np.ones((3, 3)), np.ones((3, 3)))"]
SPECTRA = ["(np.geomspace(1e-4, 3, 5), np.ones(5))", "(np.geomspace(1e-4, 3, 60), np.zeros(60))", "(np.geomspace(1e-4, 3, 60), -np.ones(60))",
           "(np.geomspace(1e-300, 1e300, 60), np.ones(60))", "(np.geomspace(1, 1.0001, 60), np.ones(60))", "(np.geomspace(1e-4, 3, 60), np.full(60, 1e305))",
           "(np.geomspace(1e-4, 3, 60), np.full(60, 1e-310))", "(np.geomspace(5e-3, 0.05, 60), np.ones(60))", "(np.geomspace(1e-5, 50, 60), 1e4 * np.ones(60), 15)",
           "(np.geomspace(1e-5, 5, 600), 1e4 * np.ones(600), 14.9)", "(np.arange(5.), np.ones(5))", "('abc', 'def')", "([1, 2, 3], [4, 5, 6], 0)",
           "(np.linspace(1e-4, 3, 6), np.array([1, np.nan, 1, 1, 1, 1]))"]


# settings with a range of their own (the precision parameters are handed to CLASS, which judges them)
RANGED = [k for k in list(A.SCALARS) + LISTS if not re.search("tol_perturb|tau_over_tau|per_decade|l_max_|start_large", k)]


def decode(x):
    return eval(x, {"np": np, "nan": float("nan"), "inf": float("inf")})


def numbers(x):
    if isinstance(x, (bool, str, bytes)) or x is None:
        return []
    if isinstance(x, (int, float, np.number)):
        return [float(x)]
    if isinstance(x, dict):
        return [v for y in x.values() for v in numbers(y)]
    if isinstance(x, (list, tuple, np.ndarray)):
        return [v for y in x for v in numbers(y)]
    if hasattr(x, "to_dict"):
        return numbers(x.to_dict())
    return [float("nan")]


def run(case):
    import coffe
    c = coffe.Coffe()
    for op in case["start"]:
        A.run(c, op)
    out = []
    for call in case["calls"]:
        print("CALL %r" % (call,), file=sys.stderr, flush=True)
        kind, name, args = call[:3]
        try:
            if kind == "set":
                v = decode(args)
                setattr(c, name, v)
                r = []
            elif kind == "table":
                getattr(c, name)(*decode(args))
                r = []
            elif kind == "new":
                r = numbers(list(getattr(coffe.Coffe(**{name: decode(args)}), "parameters").values()))
            else:
                r = getattr(c, name)(**{k: decode(v) for k, v in args.items()})
                r = numbers(r)
            out.append(("ok", len(r), [repr(v) for v in r if not np.isfinite(v)][:3], call))
        except Exception as e:      # noqa: B902
            out.append((type(e).__name__, 0, [], call))
    return out


def value(rng, good):
    if rng.random() < 0.5:
        return repr(good)
    return SCALARS[int(rng.integers(len(SCALARS)))]


def call(rng):
    u = rng.random()
    z, r = float(rng.uniform(0, 3)), float(rng.uniform(1, 300))
    if u < 0.2:
        return ["get", str(rng.choice(Z1)), {"z": value(rng, z)}]
    if u < 0.3:
        return ["get", "integral", {"r": value(rng, r), "n": value(rng, int(rng.integers(0, 5))), "l": value(rng, int(rng.integers(0, 5)))}]
    if u < 0.4:
        return ["get", "compute_corrfunc", {"z": value(rng, z), "r": value(rng, r), "mu": value(rng, float(rng.uniform(-1, 1)))}]
    if u < 0.5:
        return ["get", "compute_multipole", {"z": value(rng, z), "r": value(rng, r), "l": value(rng, int(rng.integers(0, 8)))}]
    if u < 0.56:
        return ["get", "maximum_separation", {"z_mean": value(rng, z), "deltaz": value(rng, 0.1)}]
    if u < 0.62:
        return ["get", "power_spectrum", {"k": value(rng, 0.1), "z": value(rng, z)}]
    if u < 0.68:
        return ["get", "cross_spectrum", {"k": value(rng, 0.1), "z1": value(rng, z), "z2": value(rng, z)}]
    return ["get", str(rng.choice(BULKS)), {}]


def generate(chk):
    rng = np.random.default_rng(chk.seed * 13 + 22)
    cases = []
    for i in range(chk.n(170, 4000)):
        g = A.Generator(rng, A.CHEAP + ["len"])
        start = g.start() + [["set", "integration_1d_type", "exponential"], ["set", "background_sampling", 400], ["set", "covariance_integration_sampling", 100]]
        if i % 4 == 0:
            start += [["set", "has_density", True]]
        if i % 5 == 0:
            start += [["set", "has_lensing", True], ["set", "integration_sampling", 300]]
        if i % 6 == 0:
            start += [["set", f, True] for f in A.FLATS]
        calls = []
        # hostile configuration, then ordinary questions
        for _ in range(int(rng.integers(1, 4)) if i % 3 else 0):
            u = rng.random()
            if u < 0.75:
                k = str(rng.choice(list(EDGE)))
                v = EDGE[k]
                calls.append(["set", k, v[int(rng.integers(len(v)))]])
            elif u < 0.87:
                calls.append(["table", "set_" + str(rng.choice(BIAS)), TABLES[int(rng.integers(len(TABLES)))]])
            else:
                calls.append(["table", "set_power_spectrum_linear", SPECTRA[int(rng.integers(len(SPECTRA)))]])
        if i % 3:
            calls += [["get", b, {}] for b in rng.permutation(BULKS)[:3].tolist()] + [["get", "growth_factor", {"z": "0.5"}], ["get", "integral", {"r": "30.0", "n": "0", "l": "0"}]]
        calls += [call(rng) for _ in range(14 if i % 3 == 0 else 4)]
        if i % 8 == 0:
            calls.append(["new", str(rng.choice(RANGED)), SCALARS[int(rng.integers(len(SCALARS)))]])
        cases.append(dict(fn="run", start=start, calls=calls, label="calls"))
    # every edge on its own
    for k, vs in EDGE.items():
        for v in vs:
            if not chk.thorough and rng.random() < 0.5:
                continue
            g = A.Generator(rng, A.CHEAP)
            start = g.start() + [["set", "integration_1d_type", "exponential"], ["set", "background_sampling", 400], ["set", "covariance_integration_sampling", 100]]
            if rng.random() < 0.5:
                start.append(["set", "covariance_integration_method", "fftlog"])
            calls = [["set", k, v]] + [["get", b, {}] for b in rng.permutation(BULKS).tolist()]
            cases.append(dict(fn="run", start=start, calls=calls, label="edge"))
    return cases


def body(chk):
    cases = [chk.replaying["case"]] if chk.replaying else generate(chk)

    def describe(case, last=None):
        sets = [c for c in case["calls"] if c[0] in ("set", "table")]
        if last in sets:
            sets = sets[:sets.index(last) + 1]
        return " then ".join("%s=%s" % (c[1], c[2] if isinstance(c[2], str) else "..") for c in sets)

    def result(case, res):
        if "crash" in res:
            calls = re.findall(r"^CALL (.*)$", res["stderr"], re.M)
            last = calls[-1] if calls else "?"
            text = res["stderr"].split("CALL")[-1][-600:]
            name = last.split("'")[3] if last.count("'") > 3 else "?"
            chk.violation("died:%s:%s" % (name, describe(case)[:60]), "the process ended (status %s) in %s after %s: %s" % (res["crash"], last, describe(case), text), case)
            return
        if "timeout" in res:
            chk.count("no answer in time", 1)
            chk.inconclusive.append("timeout: %s" % describe(case))
            if chk.args.verbose:
                print("TIMEOUT", describe(case), case["calls"])
            return
        if chk.failed(case, res, "hostile calls"):
            return
        for status, n, bad, call in res["ok"]:
            chk.count("returned" if status == "ok" else "raised", 1)
            chk.count("values", n)
            if status not in ("ok", "ValueError", "TypeError", "AttributeError", "OverflowError"):
                chk.count("other exception %s" % status, 1)
            if bad:
                chk.violation("nonfinite:%s:%s" % (call[1], describe(case)[:40] if call[0] == "get" and not call[2] else ""),
                              "%r returned %s without an exception after %s" % (call, bad, describe(case)), case)
            chk.saw("%s %r %s" % (status, call, describe(case)))
        chk.saw("x", nontrivial=False, sample=dict(calls=[c[:3] for c in case["calls"][:6]], outcome=[r[0] for r in res["ok"]][:6]), count=0)

    chk.run_cases(cases, on_result=result, timeout=60, retry=False)


if __name__ == "__main__":
    chk = core.Check("C22", __file__, "a distinct (call, arguments, configuration, outcome) in a process that survived",
                     assumptions=["a call that needs longer than 60 s is counted as not answered, not as a violation"])
    chk.main(body, min_nontrivial=600)
