"""C15: every setter, with good and bad values, against a model of the object's whole state."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np  # noqa: E402
from vlib import core  # noqa: E402
from vlib import twopoint as TP  # noqa: E402

NAN, INF = float("nan"), float("inf")
# name: (lowest, highest) accepted, as documented by the setters' error messages and doc strings
REAL = {"omega_cdm": (0.05, 0.4), "omega_m": (0.1, 0.6), "omega_baryon": (0.01, 0.08), "omega_gamma": (0, 0.01), "h": (0.3, 2), "w0": (-100, 100),
        "wa": (-100, 100), "n_s": (-100, 100), "sigma8": (-100, 100), "A_s": (-100, 100), "T_cmb": (-100, 100), "N_ur": (-100, 100),
        "m_ncdm": (0, 2), "YHe": (-100, 100), "k_min": (1e-7, 1e-3), "k_max": (0.1, 1e3), "integration_1d_prec": (1e-9, 1)}
LIMIT = {"omega_cdm": (-100, 100), "omega_m": (-100, 100), "omega_baryon": (-100, 100), "omega_gamma": (-100, 100), "h": (0, 100), "m_ncdm": (-100, 100),
         "k_min": (0, 1e-3), "integration_1d_prec": (0, 1)}
INT = {"N_ncdm": (-100, 100), "integration_sampling": (600, 10 ** 6), "background_sampling": (200, 4000), "integrals_fftlog_sampling": (200, 10000),
       "covariance_integration_sampling": (100, 1000)}
INTLIMIT = {"N_ncdm": (-100, 100), "integration_sampling": (0, 2147483647), "background_sampling": (0, 2147483647),
            "integrals_fftlog_sampling": (0, 1000000), "covariance_integration_sampling": (0, 1000000)}
# (lowest, highest, is the lowest accepted)
LISTS = {"sep": (0, 10000, False), "mu": (-1, 1, False), "z_mean": (0, 10, True), "z_min": (0, 10, True), "z_max": (0, 10, True), "deltaz": (0, 10, True),
         "number_density1": (0, 10, True), "number_density2": (0, 10, True), "pixelsize": (0, 1000, False), "fsky": (0, 1, False), "l": (0, 10, True)}
BOOL = ["has_" + x for x in ("density", "rsd", "lensing", "d1", "d2", "g1", "g2", "g3", "g4", "g5", "flatsky_local", "flatsky_local_nonlocal",
                             "flatsky_nonlocal", "only_cross_correlations", "binned_covariance")] + ["covariance_cosmic", "covariance_mixed",
                                                                                                 "covariance_poisson", "verbose"]
ENUM = {"covariance_integration_method": {1: "standard", 2: "fftlog"}, "covariance_interpolation_method": {1: "bilinear", 2: "bicubic"},
        "integration_1d_type": {1: "gsl", 2: "exponential"},
        "pk_type": {0: "linear", 1: "linear_class", 2: "halofit", 3: "hmcode"}}
PRECISION_F = ["k_per_decade_for_bao", "k_per_decade_for_pk", "start_large_k_at_tau_h_over_tau_k", "tol_perturb_integration",
               "radiation_streaming_trigger_tau_over_tau_k", "ur_fluid_trigger_tau_over_tau_k"]
PRECISION_I = ["l_max_g", "l_max_ur"]
BIAS = ["galaxy_bias%d" % i for i in (1, 2, 3, 4)] + [k + "_bias%d" % i for k in ("magnification", "evolution") for i in (1, 2)]
READONLY = ["omega_de", "omega_nu", "has_class", "has_cuba", "big_omega_m", "big_omega_de"]
ATTRS = list(REAL) + list(INT) + list(LISTS) + BOOL + list(ENUM) + PRECISION_F + PRECISION_I + ["covariance_populations", "omega_nu", "omega_de"]
OMEGAS = ("omega_cdm", "omega_m", "omega_baryon", "omega_gamma", "omega_nu", "omega_de")


def state(c):
    s = {k: getattr(c, k) for k in ATTRS}
    for b in BIAS:
        s[b] = (getattr(c, b + "_redshifts")(), getattr(c, b + "_values")(), [getattr(c, b)(z) for z in (0.1, 0.77, 2.3)])
    return s


def same(a, b):
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (list, np.ndarray)):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all(a == b))
    return type(a) is type(b) and a == b


def results(c):
    return ([v.value for v in c.compute_corrfunc_bulk(recompute=True)], [v.value for v in c.compute_multipoles_bulk(recompute=True)],
            [v.value for v in c.compute_covariance_bulk(recompute=True)], c.power_spectrum(0.1, 0.4), c.integral(r=40.0, n=0, l=0),
            [getattr(c, f)(0.9) for f in ("comoving_distance", "growth_factor", "growth_rate", "hubble_rate_conformal")])


def fresh_results(c):
    r = c.compute_corrfunc_bulk()
    return [v.value for v in r]


def perform(c, op):
    kind, name, value = op
    if kind == "set":
        setattr(c, name, value)
    elif kind == "bias":
        getattr(c, "set_" + name)(*value)
    elif kind == "spectrum":
        c.set_power_spectrum_linear(*value)
    elif kind == "bulk":
        c.set_parameters(**value)


def decode(v):
    """JSON has neither complex numbers nor objects"""
    if isinstance(v, dict) and "py" in v:
        return eval(v["py"], {"np": np, "nan": NAN, "inf": INF})
    return v


def run(case):
    import coffe
    c = coffe.Coffe()
    for k, v in case["start"]:
        setattr(c, k, v)
    c.set_power_spectrum_linear(*TP.spectrum_table(case["spectrum"]))
    ref = results(c)
    s = state(c)
    bad, kinds = [], {"accepted": 0, "rejected": 0}
    seen = []
    dirty = False
    for i, (kind, name, value, expect) in enumerate(case["ops"]):
        raw, value = value, decode(value)
        op = (kind, name, value)
        try:
            perform(c, op)
            err = None
        except Exception as e:      # noqa: B902
            err = type(e).__name__
        t = state(c)
        diff = sorted(k for k in s if not same(s[k], t[k]))
        if err:
            kinds["rejected"] += 1
            if expect == "accept":
                bad.append(("rejects:" + name, i, "%s %s: the valid value %r raised %s" % (kind, name, raw, err)))
            if diff:
                bad.append(("side-effect:" + name, i, "%s %s: the value %r raised %s but changed %s" % (kind, name, raw, err, diff)))
            if err not in ("ValueError", "TypeError", "AttributeError", "OverflowError"):
                bad.append(("exception:" + name, i, "%s %s: the value %r raised %s" % (kind, name, raw, err)))
            if not dirty:
                r = results(c)
                if not same(tuple(ref), tuple(r)):
                    bad.append(("results:" + name, i, "%s %s: the rejected value %r changed the results" % (kind, name, raw)))
        else:
            kinds["accepted"] += 1
            if expect == "reject":
                bad.append(("accepts:" + name, i, "%s %s: the invalid value %r was accepted (now %r)" % (kind, name, raw, t.get(name))))
            else:
                allowed = {name}
                if name in OMEGAS or name in ("h", "m_ncdm"):
                    allowed = {name} | {"omega_cdm": {"omega_m", "omega_de"}, "omega_m": {"omega_cdm", "omega_de"}, "omega_baryon": {"omega_cdm"},
                                        "omega_gamma": {"omega_de"}, "h": {"omega_nu", "omega_cdm"}, "m_ncdm": {"omega_nu", "omega_cdm"}}[name]
                if kind == "spectrum":
                    allowed = {"k_min", "k_max"}
                extra = [k for k in diff if k not in allowed]
                # the dark energy may change in the last digit when the others are rebalanced
                extra = [k for k in extra if not (k in OMEGAS and abs(s[k] - t[k]) < 1e-15)]
                if extra:
                    bad.append(("unrelated:" + name, i, "%s %s = %r also changed %s" % (kind, name, raw, extra)))
                want = value
                if kind == "set":
                    if name in ENUM:
                        want = ENUM[name].get(value, value)
                    elif name in BOOL:
                        want = bool(value)
                    elif name in LISTS:
                        want = np.array([int(x) if name == "l" else float(x) for x in value])
                    elif name in REAL or name in PRECISION_F:
                        want = float(value)
                    got = t[name]
                    ok = same(np.asarray(want, float), np.asarray(got, float)) if name in LISTS or name == "covariance_populations" else \
                        type(got) in (type(want), int, float) and got == want
                    if not ok:
                        bad.append(("readback:" + name, i, "%s = %r reads back as %r" % (name, raw, got)))
                elif kind == "bias":
                    x, y = np.asarray(value[0], float), np.asarray(value[1], float)
                    if not (same(t[name][0], x) and np.allclose(t[name][1], y, rtol=1e-13, atol=1e-13 * (np.abs(y).max() + np.abs(np.diff(y) / np.diff(x)).max() * np.ptp(x)))):
                        bad.append(("readback:" + name, i, "%s does not read back at its nodes" % name))
                elif kind == "spectrum":
                    k = np.asarray(value[0], float)
                    if (t["k_min"], t["k_max"]) != (k[0], k[-1]):
                        bad.append(("readback:spectrum", i, "k range %r instead of %r" % ((t["k_min"], t["k_max"]), (k[0], k[-1]))))
                seen.append("%s %s %r" % (kind, name, raw if kind == "set" else i))
                if name != "verbose":
                    dirty = True
        nu = t["m_ncdm"] / 93.14 / t["h"] ** 2 if t["h"] else 0
        for what, x in (("matter", t["omega_m"] - t["omega_cdm"] - t["omega_baryon"] - t["omega_nu"]), ("neutrinos", (t["omega_nu"] - nu)),
                        ("total", t["omega_m"] + t["omega_gamma"] + t["omega_de"] - 1)):
            if not abs(x) <= 1e-12 * (1 + abs(t["omega_m"]) + abs(t["omega_baryon"]) + abs(nu)):
                bad.append(("budget-%s:%s" % (what, name), i, "after %s = %r the %s budget is off by %.3g" % (name, raw, what, x)))
        # the dictionary of parameters says the same thing
        if i % 7 == 0:
            p = c.parameters
            for k in p:
                if k in t and not same(np.asarray(p[k]), np.asarray(t[k])):
                    bad.append(("dict:" + k, i, "parameters[%r] = %r, attribute %r" % (k, p[k], t[k])))
            missing = [k for k in ATTRS if k not in p and k not in OMEGAS]
            if missing:
                bad.append(("dict-missing", i, "not in the dictionary: %s" % missing))
        s = t
        if len(bad) > 3:
            break
    return dict(bad=bad, kinds=kinds, seen=seen)


def bad_scalar(rng, name, lo, hi, integer):
    pool = [{"py": x} for x in ("nan", "inf", "-inf", "'0.3'", "None", "[0.3]", "(1,)", "{}", "1j", "np.array([0.1, 0.2])", "object()", "b'1'")]
    pool += [{"py": repr(hi + x)} for x in ((1, 10 ** 9) if integer else (1e-6 * max(1, abs(hi)), 1e30))]
    pool += [{"py": repr(lo - x)} for x in ((1, 10 ** 9) if integer else (1e-6 * max(1, abs(lo)), 1e30))]
    if integer:
        pool += [{"py": "2.5"}, {"py": "3.0"}]
    return pool[int(rng.integers(len(pool)))]


def table(rng, lo=0.0, hi=15.0, n=None):
    x = np.unique(rng.uniform(lo, hi, n or int(rng.integers(6, 30))))
    x[0] = lo + 1e-3 * (hi - lo) if lo > 0 else lo
    x[-1] = hi
    return [float(v) for v in x], [float(v) for v in rng.uniform(0.2, 3, len(x))]


def bad_table(rng, positive=False):
    x, y = table(rng, 1e-4 if positive else 0.0, 5.0)
    u = int(rng.integers(12 if positive else 10))
    i = int(rng.integers(1, len(x) - 1))
    if u == 0:
        x[i] = x[i + 1]
    elif u == 1:
        x[i], x[i + 1] = x[i + 1], x[i]
    elif u == 2:
        x, y = x[:int(rng.integers(0, 5))], y[:0]
        y = [1.0] * len(x)
    elif u == 3:
        y = y[:-1]
    elif u == 4:
        y[i] = NAN
    elif u == 5:
        x[i] = NAN
    elif u == 6:
        y[i] = INF
    elif u == 7:
        x = x[::-1]
    elif u == 8:
        return {"py": "(%r, None)" % (x,)}
    elif u == 9:
        return {"py": "(%r, ['a'] * %d)" % (x, len(x))}
    elif u == 10:
        x[0] = 0.0
    elif u == 11:
        x[0] = -0.1
    return {"py": "(%r, %r)" % (x, y)}


def attempt(rng):
    """one (kind, name, value, expected)"""
    u = rng.random()
    good = rng.random() < 0.4
    if u < 0.3:
        name = str(rng.choice(list(REAL)))
        lo, hi = REAL[name]
        if good:
            v = float(np.exp(rng.uniform(np.log(lo), np.log(hi)))) if lo > 0 and hi / lo > 100 else float(rng.uniform(lo, hi))
            return ["set", name, v, "accept" if name not in ("omega_cdm", "omega_m", "omega_baryon", "omega_gamma") else "any"]
        lo, hi = LIMIT.get(name, (lo, hi))
        if name.startswith("omega_") and rng.random() < 0.4:
            return ["set", name, float(rng.uniform(1.0001, 3) if name != "omega_baryon" else rng.uniform(1.2, 3)), "reject"]
        return ["set", name, bad_scalar(rng, name, lo, hi, False), "reject"]
    if u < 0.42:
        name = str(rng.choice(list(INT)))
        if good:
            v = int(rng.integers(INT[name][0], INT[name][1] + 1))
            return ["set", name, v - v % 2, "accept"]
        return ["set", name, bad_scalar(rng, name, *INTLIMIT[name], True), "reject"]
    if u < 0.62:
        name = str(rng.choice(list(LISTS)))
        lo, hi, closed = LISTS[name]
        n = int(rng.integers(1, 5))
        if name == "l":
            v = [int(x) for x in rng.integers(0, 10, n)]
        elif name == "sep":
            v = [float(x) for x in rng.uniform(5, 200, n)]
        else:
            v = [float(x) for x in rng.uniform(lo, hi, n)]
            v = [x if lo < x < hi else (lo + hi) / 2 for x in v]
        if good:
            if rng.random() < 0.1:
                v = []
            if name == "fsky" and v:
                v[0] = 1.0
            if closed and v and rng.random() < 0.3:
                v[-1] = 0 if name == "l" else 0.0
            form = int(rng.integers(4))
            if form == 1:
                return ["set", name, {"py": "tuple(%r)" % v}, "accept"]
            if form == 2 and v:
                return ["set", name, {"py": "np.array(%r)" % v}, "accept"]
            return ["set", name, v, "accept"]
        i = int(rng.integers(n))
        b = ["nan", "-1e-9" if name not in ("mu", "l") else "-1.0001" if name == "mu" else "-1", "inf", "-inf", "None", "'x'", "%r" % (hi * 1.0001 if name != "l" else 10), "[1.0]", "1j"]
        if name == "mu":
            b += ["1.0", "-1.0"]
        elif not closed:
            b += ["0.0"]
        if name == "l":
            b += ["1.5", "2.0", "2 ** 70"]
        w = [repr(x) for x in v]
        w[i] = b[int(rng.integers(len(b)))]
        s = "[%s]" % ", ".join(w)
        if rng.random() < 0.2:
            s = str(rng.choice(["3.0", "None", "5", "object()", "'abc'"]))
        return ["set", name, {"py": s}, "reject"]
    if u < 0.68:
        return ["set", str(rng.choice(BOOL)), [True, False, 1, 0][int(rng.integers(4))], "accept"]
    if u < 0.74:
        name = str(rng.choice(list(ENUM)))
        if good:
            k = int(rng.choice(list(ENUM[name])))
            return ["set", name, k if rng.random() < 0.5 else ENUM[name][k], "accept"]
        return ["set", name, {"py": str(rng.choice(["'nope'", "None", "17", "-1", "[1]", "'GSL'", "2.5", "nan"]))}, "reject"]
    if u < 0.78:
        if rng.random() < 0.3:
            name = str(rng.choice(PRECISION_I))
            return ["set", name, int(rng.integers(3, 40)), "accept"] if good else ["set", name, {"py": str(rng.choice(["'a'", "None", "2 ** 80", "[1]"]))}, "reject"]
        name = str(rng.choice(PRECISION_F))
        return ["set", name, float(rng.uniform(1e-6, 90)), "accept"] if good else ["set", name, {"py": str(rng.choice(["'a'", "None", "1j", "[1.0]"]))}, "reject"]
    if u < 0.84:
        if good:
            return ["set", "covariance_populations", [int(x) for x in rng.integers(1, 5, 4)], "accept"]
        v = [repr(int(x)) for x in rng.integers(1, 5, 4)]
        v[int(rng.integers(4))] = str(rng.choice(["0", "5", "2.0", "None", "'1'", "nan", "-1", "1j", "2.5"]))
        s = "[%s]" % ", ".join(v)
        if rng.random() < 0.3:
            s = str(rng.choice(["[1, 2, 3]", "[1, 1, 2, 2, 1]", "7", "None", "[]"]))
        return ["set", "covariance_populations", {"py": s}, "reject"]
    if u < 0.93:
        name = str(rng.choice(BIAS))
        return ["bias", name, [list(t) for t in [table(rng)]][0], "accept"] if good else ["bias", name, bad_table(rng), "reject"]
    if u < 0.97:
        if good:
            x, y = table(rng, 1e-4, float(rng.uniform(1, 5)))
            z = float(rng.choice([0, 0, 1.2]))      # the growth may not exist in the cosmology of the moment
            return ["spectrum", "", [x, y, z], "any" if z else "accept"]
        if rng.random() < 0.5:
            return ["spectrum", "", bad_table(rng, True), "reject"]
        x, y = table(rng, 1e-4, 3.0)
        return ["spectrum", "", {"py": "(%r, %r, %s)" % (x, y, str(rng.choice(["-0.1", "15.1", "nan", "'a'", "None"])))}, "reject"]
    name = str(rng.choice(READONLY + ["no_such_parameter"]))
    if name == "no_such_parameter":
        return ["bulk", name, {"py": "{'h': 0.71, 'no_such_parameter': 1}"}, "reject"]
    return ["set", name, 0.3, "reject"]


def body(chk):
    rng = np.random.default_rng(chk.seed * 77 + 15)
    cases = []
    for i in range(chk.n(48, 1200)):
        start = [["has_density", True], ["has_rsd", True], ["sep", [20.0, 60.0]], ["mu", [0.3, -0.2]], ["l", [0, 2]], ["z_mean", [0.7]], ["deltaz", [0.1]],
                 ["number_density1", [1e-3]], ["number_density2", [2e-3]], ["fsky", [0.4]], ["pixelsize", [5.0]], ["integration_sampling", 1000],
                 ["background_sampling", 400], ["integrals_fftlog_sampling", 400], ["covariance_integration_sampling", 100],
                 ["integration_1d_type", "exponential"]]
        ops = [attempt(rng) for _ in range(80)]
        # the results are compared after every rejection until something is accepted
        if i % 2:
            head = [o for o in ops if o[3] == "reject"][:10]
            ops = head + [o for o in ops if o not in head]
        cases.append(dict(fn="run", start=start, spectrum=TP.spectrum(rng), ops=ops, label="setters"))
    if chk.replaying:
        cases = [chk.replaying["case"]]

    def result(case, res):
        if chk.failed(case, res, "setting parameters"):
            return
        r = res["ok"]
        for key, i, msg in r["bad"]:
            chk.violation(key, "operation %d: %s" % (i, msg), case)
        for k, v in r["kinds"].items():
            chk.count(k, v)
        for x in r["seen"]:
            chk.saw(x)
        chk.saw("case", nontrivial=False, sample=dict(ops=case["ops"][:6], outcome=r["kinds"]), count=0)

    chk.run_cases(cases, on_result=result, timeout=200)


if __name__ == "__main__":
    chk = core.Check("C15", __file__, "a distinct accepted value whose read-back, side effects and energy budget were examined",
                     assumptions=["the domain of each setter is the one its documentation and error messages give"])
    chk.main(body, min_nontrivial=400)
