"""C14: settings files and parameter dictionaries: random configurations, and every documented option on its own."""
import os
import sys
import tempfile
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np  # noqa: E402
from vlib import apimodel as A  # noqa: E402
from vlib import core  # noqa: E402
from vlib import twopoint as TP  # noqa: E402

BIAS = ["galaxy_bias%d" % i for i in (1, 2, 3, 4)] + [k + "_bias%d" % i for k in ("magnification", "evolution") for i in (1, 2)]
DENS = ("omega_cdm", "omega_m", "omega_baryon", "omega_gamma", "omega_nu", "omega_de")
# written out: an attribute which disappears from `parameters` has to be noticed
ATTRS = ["A_s", "N_ncdm", "N_ur", "T_cmb", "YHe", "background_sampling", "covariance_cosmic", "covariance_integration_method", "covariance_integration_sampling",
         "covariance_interpolation_method", "covariance_mixed", "covariance_poisson", "covariance_populations", "deltaz", "fsky", "h", "has_binned_covariance",
         "has_d1", "has_d2", "has_density", "has_flatsky_local", "has_flatsky_local_nonlocal", "has_flatsky_nonlocal", "has_g1", "has_g2", "has_g3", "has_g4",
         "has_g5", "has_lensing", "has_only_cross_correlations", "has_rsd", "integrals_fftlog_sampling", "integration_1d_prec", "integration_1d_type",
         "integration_sampling", "k_max", "k_min", "k_per_decade_for_bao", "k_per_decade_for_pk", "l", "l_max_g", "l_max_ur", "m_ncdm", "mu", "n_s",
         "number_density1", "number_density2", "omega_baryon", "omega_cdm", "omega_de", "omega_gamma", "omega_m", "omega_nu", "pixelsize", "pk_type",
         "radiation_streaming_trigger_tau_over_tau_k", "sep", "sigma8", "start_large_k_at_tau_h_over_tau_k", "tol_perturb_integration",
         "ur_fluid_trigger_tau_over_tau_k", "verbose", "w0", "wa", "z_max", "z_mean", "z_min"]


def differences(a, b, biases=True):
    out = []
    for k in ATTRS:
        x, y = getattr(a, k), getattr(b, k)
        if k in DENS:
            ok = abs(x - y) <= 1e-15        # rebalanced, equal to the last digit
        else:
            ok = type(x) is type(y) and np.shape(x) == np.shape(y) and bool(np.all(np.asarray(x) == np.asarray(y)))
        if not ok:
            out.append("%s %r -> %r" % (k, x, y))
    if biases:
        for n in BIAS:
            xa, xb = getattr(a, n + "_redshifts")(), getattr(b, n + "_redshifts")()
            if xa.shape != xb.shape or not np.all(xa == xb):
                out.append("%s nodes %r -> %r" % (n, xa[:4], xb[:4]))
                continue
            ya, yb = getattr(a, n + "_values")(), getattr(b, n + "_values")()
            mid = (xa[1:] + xa[:-1]) / 2
            ma, mb = np.array([getattr(a, n)(z) for z in mid]), np.array([getattr(b, n)(z) for z in mid])
            s = np.abs(ya).max() + 1e-30
            if max(np.abs(ya - yb).max(), np.abs(ma - mb).max()) > 1e-11 * s:
                out.append("%s values differ by %.3g" % (n, max(np.abs(ya - yb).max(), np.abs(ma - mb).max())))
    return out


def roundtrip(case):
    import coffe
    c = coffe.Coffe()
    user = None
    for op in case["ops"]:
        _, e = A.attempt(A.run, c, op)
        if op[0] == "spectrum":
            user = ["spectrum", op[1], 0.0]       # at other redshifts the growth may not exist (omega_m = 1)
        assert e is None or op[0] == "q", (op, e)
    if user:
        A.run(c, user)
    bad, n = [], 0
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "a.cfg")
        c.to_file(f)
        g = os.path.join(d, "b.cfg")
        try:
            x = coffe.Coffe.from_file(f)
            x.to_file(g)
            if open(f).read().split("galaxy_bias1_redshifts")[0] != open(g).read().split("galaxy_bias1_redshifts")[0]:
                a, b = [{l.split("=")[0] for l in open(p).read().split("\n")} for p in (f, g)]
                if a != b:
                    bad.append(("file:second", "the second file has other options: %s" % sorted(a ^ b)))
        except Exception as e:      # noqa: B902
            x = None
            bad.append(("file:raises", "reading back raised %r" % e))
    p = c.parameters
    objs = [("file", x)]
    try:
        objs.append(("constructor", coffe.Coffe(**p)))
        o = coffe.Coffe()
        for op in case["other"]:
            A.attempt(A.run, o, op)
        o.set_parameters(**p)
        objs.append(("set_parameters", o))
        perm = list(p)
        np.random.default_rng(case["seed"]).shuffle(perm)
        # the densities, h and m_ncdm depend on each other: their order stays
        perm = [k for k in perm if k not in DENS + ("h", "m_ncdm")] + [k for k in p if k in DENS + ("h", "m_ncdm")]
        objs.append(("constructor, other order", coffe.Coffe(**{k: p[k] for k in perm})))
    except Exception as e:      # noqa: B902
        bad.append(("dict:raises", "the dictionary of parameters raised %r" % e))
    answers = []
    want = {}
    for name, o in objs:
        if o is None:
            continue
        for m in differences(c, o, name == "file"):
            bad.append(("%s:%s" % (name.split()[0].strip(","), m.split()[0]), "%s: %s" % (name, m)))
        if user:
            A.run(o, user)
        if name != "file":
            for k in BIAS:
                getattr(o, "set_" + k)(getattr(c, k + "_redshifts")(), getattr(c, k + "_values")())
        if name in ("file", "constructor") and not bad:
            for q in case["queries"]:
                if str(q) not in want:
                    want[str(q)] = A.attempt(A.run, c, q)
                a, ea = want[str(q)]
                b, eb = A.attempt(A.run, o, q)
                if ea != eb:
                    bad.append(("%s:%s" % (name, q[1]), "%s: %r %s instead of %s" % (name, q, eb, ea)))
                elif ea is None:
                    e = A.agree(a, b, 1e-6)
                    answers.append(float(np.sum(np.abs(a))))
                    if not e <= 1:
                        bad.append(("%s:%s" % (name, q[1]), "%s: %r gives %r instead of %r" % (name, q, b[:4], a[:4])))
        n += len(ATTRS) + 3 * len(BIAS)
    return dict(bad=bad, n=n, answers=answers)


def option(case):
    """a file with one option (and its companions)"""
    import coffe
    bad = []
    with tempfile.TemporaryDirectory() as d:
        for name, text, want in case["list"]:
            f = os.path.join(d, "o.cfg")
            for fn, content in case.get("files", {}).items():
                with open(os.path.join(d, fn), "w") as fh:
                    fh.write(content)
            with open(f, "w") as fh:
                fh.write(text.replace("@DIR@", d))
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    c = coffe.Coffe.from_file(f)
            except Exception as e:      # noqa: B902
                bad.append(("option:" + name, "%r raised %r" % (text, e)))
                continue
            for k, v in want.items():
                if k.startswith("@"):       # value of a bias at a redshift
                    b, z = k[1:].split("/")
                    got = getattr(c, b)(float(z))
                    ok = abs(got - v) < 1e-9
                else:
                    got = getattr(c, k)
                    ok = np.shape(got) == np.shape(v) and bool(np.all(np.asarray(got) == np.asarray(v)))
                if not ok:
                    bad.append(("option:" + name, "%r: %s is %r instead of %r" % (text, k, got, v)))
    return dict(bad=bad, n=len(case["list"]))


def options(rng):
    out = []
    enums = {"covariance_integration_method": (["standard", "fftlog"], 1), "covariance_interpolation_method": (["bilinear", "bicubic"], 1),
             "integration_1d_type": (["gsl", "exponential"], 1), "pk_type": (["linear", "linear_class", "halofit", "hmcode"], 0)}
    ends = ["", ";", "\n"]
    end = lambda: str(rng.choice(ends))   # noqa: E731
    reals = dict(omega_m=(.2, .5), omega_baryon=(.01, .08), omega_gamma=(1e-5, 1e-3), h=(.5, .9), w0=(-1.5, -.5), wa=(-.5, .5), n_s=(.8, 1.1),
                 sigma8=(.6, 1), A_s=(1e-9, 3e-9), T_cmb=(2.5, 2.9), N_ur=(1, 3), m_ncdm=(.01, .5), YHe=(.2, .3), k_min=(1e-6, 9e-4), k_max=(.2, 900),
                 integration_1d_prec=(1e-7, 1e-3), k_per_decade_for_bao=(20, 90), k_per_decade_for_pk=(5, 20), start_large_k_at_tau_h_over_tau_k=(.01, .1),
                 tol_perturb_integration=(1e-7, 1e-4), radiation_streaming_trigger_tau_over_tau_k=(20, 90), ur_fluid_trigger_tau_over_tau_k=(10, 60))
    for k, (a, b) in reals.items():
        v = float(rng.uniform(a, b))
        out.append([k, "%s = %r%s" % (k, v, end()), {k: v}])
    for k in ("l_max_g", "l_max_ur", "N_ncdm", "integration_sampling", "background_sampling", "integrals_fftlog_sampling", "covariance_integration_sampling"):
        v = int(rng.integers(1, 20)) * (2 if k[0] in "lN" else 100)
        out.append([k, "%s = %d%s" % (k, v, end()), {k: v}])
    for k in [x for x in ATTRS if x.startswith("has_") or x in ("covariance_cosmic", "covariance_mixed", "covariance_poisson", "verbose")]:
        for v in (0, 1):
            out.append([k, "%s = %d%s" % (k, v, end()), {k: bool(v)}])
    for k, (names, first) in enums.items():
        i = int(rng.integers(len(names)))
        out.append([k, "%s = %s%s" % (k, names[i], end()), {k: names[i]}])
        out.append([k, "%s = %d%s" % (k, i + first, end()), {k: names[i]}])
    ranges = dict(sep=(5, 300), mu=(-.99, .99), z_mean=(.1, 3), z_min=(.1, 3), z_max=(.1, 3), deltaz=(.01, .4), number_density1=(1e-5, 1), number_density2=(1e-5, 1),
                  pixelsize=(1, 50), fsky=(.01, 1))
    legacy = dict(covariance_z_mean="z_mean", covariance_deltaz="deltaz", covariance_fsky="fsky", covariance_pixelsize="pixelsize", covariance_zmin="z_min",
                  covariance_zmax="z_max")
    for k, (a, b) in list(ranges.items()) + [(x, ranges[y]) for x, y in legacy.items()]:
        v = [float(x) for x in rng.uniform(a, b, int(rng.integers(1, 6)))]
        out.append([k, "%s = %r%s" % (k, v, end()), {legacy.get(k, k): v}])
    v = [float(x) for x in rng.uniform(1e-4, 1, 3)]
    out.append(["covariance_density", "covariance_density = %r;" % v, dict(number_density1=v, number_density2=v)])
    v = [int(x) for x in rng.permutation(9)[:4]]
    out.append(["l", "l = %r" % v, dict(l=v)])
    out.append(["multipoles", "multipoles = %r;" % v, dict(l=v)])
    v = [int(x) for x in rng.integers(1, 5, 4)]
    out.append(["covariance_populations", "covariance_populations = %r" % v, dict(covariance_populations=v)])
    for k, a in (("only_cross_correlations", "has_only_cross_correlations"), ("covariance_window", "has_binned_covariance"), ("flatsky_local", "has_flatsky_local"),
                 ("flatsky_local_nonlocal", "has_flatsky_local_nonlocal"), ("flatsky_nonlocal", "has_flatsky_nonlocal")):
        out.append([k, "%s = 1%s" % (k, end()), {a: True}])
    names = dict(den="density", rsd="rsd", len="lensing", d1="d1", d2="d2", g1="g1", g2="g2", g3="g3", g4="g4", g5="g5")
    for _ in range(4):
        pick = [str(x) for x in rng.permutation(list(names))[:int(rng.integers(1, 5))]]
        q = str(rng.choice(['"', '']))
        out.append(["correlation_contributions", "correlation_contributions = [%s];" % ", ".join(q + x + q for x in pick),
                    {"has_" + v: k in pick for k, v in names.items()}])
    z = np.linspace(0, 12, 25)
    files = {}
    for b in BIAS:
        y = rng.uniform(.5, 3, 25)
        files[b + ".dat"] = "".join("%.17g\t%.17g\n" % t for t in zip(z, y))
        out.append(["read_" + b, "%s = 9.0\nread_%s = 1;\ninput_%s = \"@DIR@/%s.dat\";" % (b, b, b, b), {"@%s/%s" % (b, z[i]): float(y[i]) for i in (0, 7, 24)}])
        v = float(rng.uniform(.5, 3))
        full = rng.random() < .5
        out.append([b, "%s = %r;\n" % (b, v) + ("read_%s = 0;\ninput_%s = \"\";" % (b, b) if full else ""), {"@%s/%s" % (b, x): v for x in (0, 1.3, 9.9)}])
        x = np.sort(rng.uniform(0, 5, 8))
        out.append([b + "_values", "%s_redshifts = %r\n%s_values = %r" % (b, x.tolist(), b, y[:8].tolist()), {"@%s/%r" % (b, float(x[i])): float(y[i]) for i in (0, 3, 6)}])
    # new names have precedence over legacy ones, and comments are comments
    out.append(["precedence", "z_mean = [1.5]\ncovariance_z_mean = [0.5];\n# h = 0.9\n", dict(z_mean=[1.5], h=0.67)])
    out.append(["precedence", "multipoles = [1];\nl = [2, 4]\nflatsky_local = 1\nhas_flatsky_local = 0", dict(l=[2, 4], has_flatsky_local=False)])
    out.append(["densities", "omega_m = 0.9\nomega_baryon = 0.2\n", dict(omega_m=.9, omega_baryon=.2)])
    out.append(["densities", "omega_m = 1.0\nomega_gamma = 0\nomega_baryon = 0.07", dict(omega_m=1., omega_gamma=0., omega_baryon=.07)])
    return out, files


def generate(chk):
    rng = np.random.default_rng(chk.seed * 31 + 14)
    cases = []
    for i in range(chk.n(40, 900)):
        g = A.Generator(rng, A.CHEAP + (["len"] if i % 2 else []))
        ops = g.start()
        for _ in range(int(rng.integers(5, 40))):
            ops += g.setter()
        if i % 3 == 0:
            # (2-28)/8 flags of the expensive contributions: parameters only
            ops += [["set", A.FLAG[str(x)], True] for x in rng.choice(A.POT, 2)]
        if i % 5 == 0:
            ops += [["set", "omega_gamma", 0.0], ["set", "omega_m", float(rng.choice([1.0, 0.95]))], ["set", "omega_baryon", float(rng.uniform(0.05, 0.6))]]
        if i % 7 == 0:
            ops += [["set", k, []] for k in rng.permutation(["sep", "mu", "l", "z_mean", "deltaz", "fsky"])[:2].tolist()]
        queries = [g.query() for _ in range(4)] if i % 3 else [["q", "background", [0.3, 1.0]], ["q", "biases", [0.7]], ["q", "power", [0.1, 0.5, 0.2]]]
        if i % 9 == 0:
            ops += [["q", "background", [0.5]]]
        other = g.start()
        for _ in range(12):
            other += g.setter()
        cases.append(dict(fn="roundtrip", ops=ops, other=other, queries=[["q"] + q[1:] for q in queries], seed=int(rng.integers(1 << 30)), label="round trip",
                          _env={"PYTHONHASHSEED": str(int(rng.integers(1, 4000)))}))
    for _ in range(chk.n(2, 40)):
        out, files = options(rng)
        for i in range(0, len(out), 20):
            cases.append(dict(fn="option", list=out[i:i + 20], files=files, label="options"))
    # what set_power_spectrum_linear accepts but the k_min setter doesn't
    t = TP.spectrum(rng)
    cases.append(dict(fn="wide", spectrum=t, label="wide"))
    return cases


def wide(case):
    import coffe
    out = []
    for lo, hi in ((5e-3, 2.0), (1e-4, 0.08), (1e-4, 2e3)):
        c = coffe.Coffe()
        k = np.geomspace(lo, hi, 60)
        c.set_power_spectrum_linear(k, 1e4 * k / (1 + (k / .02) ** 2.5))
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "a.cfg")
            c.to_file(f)
            try:
                x = coffe.Coffe.from_file(f)
                out.append((lo, hi, x.k_min == c.k_min and x.k_max == c.k_max, "%r %r" % (x.k_min, x.k_max)))
            except ValueError as e:
                out.append((lo, hi, False, repr(e)))
    return out


def body(chk):
    cases = [chk.replaying["case"]] if chk.replaying else generate(chk)

    def result(case, res):
        if chk.failed(case, res, "the round trip"):
            return
        r = res["ok"]
        if case["fn"] == "wide":
            for lo, hi, ok, msg in r:
                chk.saw("wide %g %g" % (lo, hi))
                if not ok:
                    chk.violation("file:k-range-of-user-spectrum", "an object with a spectrum on [%g, %g] can't be read back: %s" % (lo, hi, msg), case)
            return
        for key, msg in r["bad"]:
            chk.violation(key, msg, case)
        chk.count("fields compared", r["n"])
        if case["fn"] == "option":
            for name, text, _ in case["list"]:
                chk.saw("option %s %s" % (name, text[:60]))
        else:
            chk.saw("configuration %r" % case["ops"], sample=dict(ops=case["ops"][:5], answers=r["answers"][:4]))
            for v in r["answers"]:
                chk.saw("answer %.9g" % v, nontrivial=v != 0)

    chk.run_cases(cases, on_result=result, timeout=200)


if __name__ == "__main__":
    chk = core.Check("C14", __file__, "a distinct configuration, answer or documented option that went through a file or a dictionary",
                     assumptions=["the spectrum set by the user is not part of the settings and is set again after reading",
                                  "the dictionary of parameters has no biases; they are copied with their own setters"])
    chk.main(body, min_nontrivial=150)
