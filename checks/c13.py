"""C13: random API histories; the state is compared with a fresh object that has the final parameters."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np  # noqa: E402
from vlib import apimodel as A  # noqa: E402
from vlib import core  # noqa: E402


def history(case):
    import coffe
    c = coffe.Coffe()
    m = A.Model()
    bad, checks, raised, worst = [], [], 0, 0.0
    for i, op in enumerate(case["ops"]):
        if op[0] == "check":
            a, ea = A.attempt(A.run, c, op)
            f = m.fresh()
            b, eb = A.attempt(A.run, f, op)
            if ea != eb:
                bad.append((i, "%r: %s after the history, %s for a fresh object" % (op[1:], ea or "a result", eb or "a result")))
            elif ea is None:
                e = A.agree(a, b)
                worst = max(worst, e)
                checks.append(float(np.abs(np.asarray(a, float)).sum()) if len(a) else 0.0)
                if not e <= 1:
                    bad.append((i, "%r: %r after the history, %r for a fresh object (%.3g of what is allowed)" % (op[1:], a[:6], b[:6], e)))
            else:
                raised += 1
        else:
            _, e = A.attempt(A.run, c, op)
            if e is None:
                m.note(op)
            elif op[0] in ("set", "bias", "spectrum"):
                bad.append((i, "%r raised %s" % (op, e)))
        if bad:
            break
    return dict(bad=bad, checks=checks, raised=raised, worst=worst)


def pairs(case):
    """all queries, change one parameter, all queries again: against a fresh object, for every parameter"""
    import coffe
    out = []
    for item in case["list"]:
        c, m = coffe.Coffe(), A.Model()
        for op in item["base"]:
            _, e = A.attempt(A.run, c, op)
            if e is None:
                m.note(op)
        before = [A.attempt(A.run, c, q) for q in item["queries"]]
        for op in item["change"]:
            _, e = A.attempt(A.run, c, op)
            if e is None:
                m.note(op)
        for i in np.random.default_rng(item["seed"]).permutation(len(item["queries"])):
            q = item["queries"][i]
            a, ea = A.attempt(A.run, c, q)
            # each answer is computed by an object of its own, which never did anything else
            b, eb = A.attempt(A.run, m.fresh(), q)
            e = A.agree(a, b) if ea is None and eb is None else 0.0 if ea == eb else np.inf
            out.append(dict(err=e, name=item["name"], op=op, q=q, got=a[:4] if a else ea, ref=b[:4] if b else eb,
                            changed=bool(before[i][0] is not None and a is not None and A.agree(before[i][0], a) > 1)))
    return out


QUERIES = [["q", "corrfunc", [0.9, 60.0, 0.4]], ["q", "multipole", [0.9, 60.0, 2]], ["q", "integral", [50.0, 0, 0]], ["q", "power", [0.1, 0.5, 0.7]],
           ["q", "background", [0.3, 1.2]]] + [["q", k, [False]] for k in ("corrfunc_bulk", "multipoles_bulk", "average_multipoles_bulk",
                                                                         "covariance_bulk", "average_covariance_bulk")]


def single_changes(rng, g):
    """one item for every parameter there is"""
    items = []
    n = 2
    z = np.sort(rng.uniform(0.5, 1.4, n))
    dz = rng.uniform(0.1, 0.2, n)
    survey = dict(z_mean=z, deltaz=dz, number_density1=10 ** rng.uniform(-4, -2, n), number_density2=10 ** rng.uniform(-4, -2, n),
                  fsky=rng.uniform(0.1, 1, n), pixelsize=rng.uniform(4, 8, n), z_min=z - dz, z_max=z + dz)
    base = [["set", k, [float(x) for x in v]] for k, v in survey.items()]
    base += [["set", "integration_sampling", 700], ["set", "background_sampling", 600], ["set", "integrals_fftlog_sampling", 600],
             ["set", "covariance_integration_sampling", 200], ["set", "integration_1d_type", "exponential"],
             ["set", "sep", [float(x) for x in (30 + rng.uniform(0, 20), 80 + rng.uniform(0, 40))]], ["set", "mu", [float(rng.uniform(-0.9, 0.9))]],
             ["set", "l", [2, 0]]] + [["set", A.FLAG[x], True] for x in A.CHEAP]
    # every population has biases of its own
    base += [["bias", kind, p, [float(rng.uniform(0.5, 2)), float(rng.uniform(-0.2, 0.3))], 20]
             for kind, ps in (("galaxy", 4), ("magnification", 2), ("evolution", 2)) for p in range(1, ps + 1)]
    spectrum = g.spectrum()

    def add(name, change, own=True, extra=()):
        items.append(dict(name=name, base=base + ([spectrum] if own else []) + list(extra), change=change, queries=QUERIES, seed=int(rng.integers(1 << 30))))

    def value(draw, old=None):
        for _ in range(50):
            v = draw(rng)
            if v != old:
                return v
        return v

    start = {o[1]: o[2] for o in base if o[0] == "set"}
    defaults = {"integration_1d_type": "exponential", "covariance_interpolation_method": "bicubic", "covariance_integration_method": "standard",
                "has_binned_covariance": True, "covariance_cosmic": True, "covariance_mixed": True, "covariance_poisson": True,
                "has_only_cross_correlations": False}
    for k in A.SCALARS:
        extra = [["set", "covariance_integration_method", "fftlog"]] if k in ("covariance_interpolation_method", "covariance_integration_sampling") else []
        if k == "integration_sampling":
            extra = [["set", "has_lensing", True]]
        if k == "covariance_populations":
            extra = [["set", k, [1, 2, 1, 2]]]
        add(k, [["set", k, value(A.SCALARS[k], start.get(k, defaults.get(k)))]], own=k in ("integration_1d_prec", "integration_1d_type") or rng.random() < 0.6, extra=extra)
    for k in ("sep", "mu", "l"):
        add(k, [["set", k, value(A.COORDS[k], start[k])]])
    for k in survey:
        f = 1.03 if k == "z_mean" else 0.98 if k == "z_max" else 1.02 if k == "z_min" else rng.uniform(0.6, 0.95)
        add(k, [["set", k, [float(x * f) for x in survey[k]]]])
    add("survey", g.survey())
    for x in A.CHEAP + ["len"]:
        add(A.FLAG[x], [["set", A.FLAG[x], False]], extra=[["set", A.FLAG["len"], True]] if x == "len" else [])
    add("has_lensing on", [["set", "has_lensing", True]])
    for k in A.FLATS:
        add(k, [["set", k, True]], extra=[["set", "has_lensing", True]])
    for kind, ps in (("galaxy", 4), ("magnification", 2), ("evolution", 2)):
        for p in range(1, ps + 1):
            extra = [["set", "covariance_populations", [p, p, p, p]]] if kind == "galaxy" else [["set", "has_lensing", True]] if kind == "magnification" and p == 1 else []
            add("%s_bias%d" % (kind, p), [["bias", kind, p, [float(rng.uniform(2.2, 3)), float(rng.uniform(-0.2, 0.3))], 20]], extra=extra)
    add("spectrum", [g.spectrum()])
    add("spectrum after the one of the cosmology", [g.spectrum()], own=False)
    add("reset", [["reset"], ["set", "has_rsd", True]])
    for x in [A.POT[int(i)] for i in rng.permutation(len(A.POT))[:2]]:
        items.insert(0, dict(name=A.FLAG[x], base=base + [spectrum], change=[["set", A.FLAG[x], True]], queries=QUERIES[:3:2] + QUERIES[5:6], seed=1))
        items.insert(0, dict(name=A.FLAG[x] + " off", base=base + [spectrum, ["set", A.FLAG[x], True]], change=[["set", A.FLAG[x], False]], queries=QUERIES[:3:2] + QUERIES[5:6], seed=1))
    return items


def generate(rng, n):
    out = []
    for i in range(n):
        names = A.CHEAP if i % 3 else A.CHEAP + ["len"]
        if i % 16 == 5:
            names = A.CHEAP + ["d2", "g1", "g4"]
        g = A.Generator(rng, names)
        k = 60 if i % 16 != 5 else 14
        out.append(dict(fn="history", ops=g.history(k), label="history " + "+".join(names), heavy=i % 16 == 5))
    g = A.Generator(rng, A.CHEAP)
    for rep in range(max(1, n // 200)):
        for item in single_changes(rng, g):
            heavy = item["name"].split()[0][4:] in A.POT
            out.append(dict(fn="pairs", list=[item], label="change " + item["name"], heavy=heavy))
    out.sort(key=lambda c: not c.get("heavy"))
    return out


def body(chk):
    rng = np.random.default_rng(chk.seed * 1009 + 13)
    cases = generate(rng, chk.n(40, 800))
    if chk.replaying:
        cases = [chk.replaying["case"]]

    def result(case, res):
        if chk.failed(case, res, "the history"):
            return
        r = res["ok"]
        if case["fn"] == "pairs":
            for x in r:
                chk.maximum("difference/allowed after one change", x["err"])
                if not x["err"] <= 1:
                    chk.violation("stale:%s:%s" % (x["name"], x["q"][1]), "after %r, %r gives %r, a fresh object %r" % (x["op"], x["q"][1:], x["got"], x["ref"]), case)
                chk.saw("pair %s %r" % (x["name"], x["q"]), nontrivial=isinstance(x["got"], list))
                chk.count("answers which a single change of a parameter altered", int(x["changed"]))
            return
        for i, msg in r["bad"]:
            op = case["ops"][i]
            chk.violation("history:%s" % (op[1] if len(op) > 1 else op[0]), "operation %d of %d: %s" % (i, len(case["ops"]), msg), case)
        chk.count("operations", len(case["ops"]))
        chk.count("refused queries compared", r["raised"])
        chk.maximum("difference/allowed in histories", r["worst"])
        for v in r["checks"]:
            chk.saw("history %.9g" % v, nontrivial=v != 0)
        if r["checks"]:
            chk.saw("x", nontrivial=False, sample=dict(ops=case["ops"][-6:], answers=r["checks"][:4]), count=0)

    chk.run_cases(cases, on_result=result, timeout=400)


if __name__ == "__main__":
    chk = core.Check("C13", __file__, "a distinct non-zero answer that was also computed by a fresh object with the same parameters",
                     assumptions=["a spectrum set by the user is dropped by a change of the cosmology, k_min, k_max or pk_type (by design); the model knows this",
                                  "without CLASS the spectrum of the cosmology comes from an analytic stand-in that depends on every cosmological parameter"])
    chk.main(body, min_nontrivial=150)
