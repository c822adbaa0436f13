"""C12: recorded bulk outputs: every requested combination once, in order, correctly labelled, equal to single calls."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np  # noqa: E402
from vlib import core  # noqa: E402
from vlib import covar as C  # noqa: E402
from vlib import twopoint as TP  # noqa: E402

LOCAL = ["den", "rsd", "d1", "d2", "g1", "g2", "g3"]
FLAT = ("has_flatsky_local", "has_flatsky_local_nonlocal", "has_flatsky_nonlocal")
FIELDS = {"corrfunc": ("z", "mu", "r"), "multipoles": ("z", "l", "r"), "average_multipoles": ("z_min", "z_max", "l", "r"),
          "covariance": ("z", "l1", "r1", "l2", "r2"), "average_covariance": ("z_min", "z_max", "l1", "r1", "l2", "r2")}


def dump(records, fields):
    return [[getattr(m, f) for f in fields] + [m.value] for m in records]


def expected(stat, q):
    if stat == "corrfunc":
        return [list(x) for x in itertools.product(q["z"], q["mu"], q["r"])]
    if stat == "multipoles":
        return [list(x) for x in itertools.product(q["z"], q["l"], q["r"])]
    if stat == "average_multipoles":
        return [[a, b, l, r] for (a, b), l, r in itertools.product(zip(q["zmin"], q["zmax"]), q["l"], q["r"])]
    if stat == "covariance":
        return [list(x) for x in itertools.product(q["z"], q["l"], q["r"], q["l"], q["r"])]
    return [[a, b, *x] for (a, b), *x in itertools.product(zip(q["zmin"], q["zmax"]), q["l"], q["r"], q["l"], q["r"])]


def request(c, stat, q):
    if "z" in q:
        c.z_mean = q["z"]
    if "zmin" in q:
        c.z_min, c.z_max = q["zmin"], q["zmax"]
        if stat == "average_covariance":
            c.z_mean = [0.5 * (a + b) for a, b in zip(q["zmin"], q["zmax"])]
    if "mu" in q:
        c.mu = q["mu"]
    if "l" in q:
        c.l = q["l"]
    c.sep = q["r"]
    if "covariance" in stat:
        s = q["survey"]
        c.deltaz, c.number_density1, c.number_density2, c.fsky, c.pixelsize = s["dz"], s["n1"], s["n2"], s["fsky"], s["pix"]


def key(row):
    return tuple(row[:-1])


def grid(case):
    from vlib import coffeutil as U
    if case["survey"]:
        c = C.configure(case)
    else:
        c = TP.configure(case)
        TP.set_biases(c, case["bias"])
        k, p = TP.spectrum_table(case["spec"])
        c.set_power_spectrum_linear(k, p)
    U.set_names(c, case["names"])
    for f in FLAT:
        setattr(c, f, f in case["flat"])
    c.integration_sampling = 2000
    stat, q = case["stat"], case["request"]
    f = FIELDS[stat]
    bulk = getattr(c, "compute_%s_bulk" % stat)
    bad = []

    def check_rows(rows, q, what):
        exp = expected(stat, q)
        if len(rows) != len(exp):
            bad.append(("count", "%s: %d values for %d requested combinations" % (what, len(rows), len(exp))))
            return False
        for i, (r, e) in enumerate(zip(rows, exp)):
            if list(r[:-1]) != list(e):
                bad.append(("labels", "%s: value %d is labelled %r, expected %r (%s)" % (what, i, r[:-1], e, f)))
                return False
        return True

    request(c, stat, q)
    first = dump(bulk(), f)
    ok = check_rows(first, q, "first request")
    again = dump(bulk(), f)
    if again != first:
        bad.append(("repeat", "asking again gave something else"))
    ref = {key(r): r[-1] for r in first}
    size = max([abs(v) for v in ref.values()] + [0.0])
    rng = np.random.default_rng(case["seed"])
    compared = 0

    def same(a, b):
        return abs(a - b) <= case["rtol"] * max(abs(a), abs(b)) + case["rtol"] * 1e-8 * size

    def compare(rows, what):
        nonlocal compared
        for r in rows:
            if key(r) in ref:
                compared += 1
                if not same(r[-1], ref[key(r)]):
                    bad.append(("value/" + what.split()[0], "%s: %r gave %.12g, as part of the first request %.12g" % (what, r[:-1], r[-1], ref[key(r)])))
                    return

    # single calls
    if stat in ("corrfunc", "multipoles"):
        single = c.compute_corrfunc if stat == "corrfunc" else c.compute_multipole
        rows = []
        for i in rng.permutation(len(first))[:case["nsingle"]]:
            a = first[i][:-1]
            kw = dict(z=a[0], r=a[2], **({"mu": a[1]} if stat == "corrfunc" else {"l": a[1]}))
            rows.append(a + [single(**kw)])
        compare(rows, "single call")
        # out of the grid, then back: the request is not affected by it
        single(**dict(kw, r=kw["r"] * 1.1))
        if dump(bulk(), f) != first:
            bad.append(("repeat", "a single call changed the stored result"))
    # permuted, reduced and extended requests on the same object, and on a fresh grid order
    for name, q2 in case["others"]:
        request(c, stat, q2)
        rows = dump(bulk(), f)
        check_rows(rows, q2, name)
        compare(rows, name)
    return dict(bad=bad, n=len(first), compared=compared, size=size, first=first[0])


def sample(rng, stat, big=False):
    """coordinates of a request: unordered, of several sizes"""
    n = lambda a, b: int(rng.integers(a, b + 1))
    q = {}
    if stat in ("corrfunc", "multipoles"):
        q["z"] = [float(x) for x in rng.uniform(0.4, 2.0, n(1, 4))]
        if rng.random() < 0.3 and len(q["z"]) > 1:
            q["z"][1] = q["z"][0] + 1e-4
    q["r"] = [float(x) for x in rng.permutation(np.cumsum(rng.uniform(7, 40, n(1, 7 if big else 5))) + 20)]
    if rng.random() < 0.3 and len(q["r"]) > 1:
        q["r"][1] = q["r"][0] + 1e-3
    if stat == "corrfunc":
        q["mu"] = [float(x) for x in rng.uniform(-1, 1, n(1, 6 if big else 4))]
        if rng.random() < 0.4:
            q["mu"][0] = float(rng.choice([-0.9999, 0, 0.9999]))
    else:
        q["l"] = [int(x) for x in rng.permutation([0, 1, 2, 3, 4])[:n(1, 3)]]
        if "covariance" in stat:
            q["l"] = [int(x) for x in rng.permutation([0, 2, 4])[:n(1, 3)]]
    return q


def permuted(rng, q, keys):
    out = dict(q)
    for k in keys:
        out[k] = [q[k][i] for i in rng.permutation(len(q[k]))]
    return out


def reduced(rng, q, keys):
    out = dict(q)
    for k in keys:
        m = int(rng.integers(1, len(q[k]) + 1))
        out[k] = [q[k][i] for i in sorted(rng.choice(len(q[k]), m, replace=False).tolist())]
    return out


def generate(rng, n):
    out = []

    def add(stat, names, flat=(), rtol=1e-12, **kw):
        q = sample(rng, stat, kw.pop("big", False))
        cov = "covariance" in stat
        s = None
        coords = [k for k in ("z", "mu", "l", "r") if k in q]
        if stat == "average_multipoles":
            zm = [float(x) for x in rng.uniform(0.5, 1.5, int(rng.integers(1, 4)))]
            q["zmin"], q["zmax"] = zm, [z + float(rng.uniform(0.25, 0.4)) for z in zm]
        others = []
        if cov:
            s = C.survey(rng, nbins=int(rng.integers(1, 4)), ls=q["l"], nsep=len(q["r"]), average=stat != "covariance", binned=bool(rng.random() < 0.3))
            q["r"] = [s["sep"][i] for i in rng.permutation(len(s["sep"]))]
            s["sep"] = q["r"]
            q["survey"] = {k: s[k] for k in ("dz", "n1", "n2", "fsky", "pix")}
            if stat == "covariance":
                q["z"] = s["z"]
            else:
                q["zmin"], q["zmax"] = [a - b for a, b in zip(s["z"], s["dz"])], [a + b for a, b in zip(s["z"], s["dz"])]
            others += [("permuted", permuted(rng, q, ("l", "r"))), ("reduced", reduced(rng, q, ("l", "r")))]
            o = rng.permutation(len(s["z"]))[:int(rng.integers(1, len(s["z"]) + 1))]
            q2 = dict(q, survey={k: [v[i] for i in o] for k, v in q["survey"].items()})
            for k in ("z", "zmin", "zmax"):
                if k in q:
                    q2[k] = [q[k][i] for i in o]
            others.append(("bins", q2))
        else:
            others += [("permuted", permuted(rng, q, coords)), ("reduced", reduced(rng, q, coords))]
            more = dict(q)
            for k in coords:
                if k != "l":
                    more[k] = q[k] + [float(0.5 * (q[k][0] + q[k][-1]) + 1e-2)]
            others.append(("extended", more))
            if "zmin" in q:
                o = rng.permutation(len(q["zmin"]))[:int(rng.integers(1, len(q["zmin"]) + 1))]
                others.append(("bins", dict(q, zmin=[q["zmin"][i] for i in o], zmax=[q["zmax"][i] for i in o])))
        d = dict(fn="grid", set=TP.cosmology(rng), spec=TP.spectrum(rng), bias={k: list(v) for k, v in TP.biases(rng).items()}, names=names, flat=list(flat),
                 stat=stat, request=q, survey=s, others=others, seed=int(rng.integers(1 << 30)), rtol=rtol, nsingle=12,
                 label="%s %s%s" % (stat, "+".join(names), "/flat" if flat else ""), _env={"OMP_NUM_THREADS": str(int(rng.choice([1, 3, 5])))})
        d.update(kw)
        out.append(d)

    def some():
        return [str(x) for x in rng.permutation(LOCAL[:3])[:int(rng.integers(1, 4))]]

    for _ in range(n):
        for big in (True, False):
            add("corrfunc", some(), big=big)
            add("multipoles", some(), big=big)
        add("corrfunc", some(), FLAT[:1])
        add("multipoles", some() + ["len"], FLAT)
        add("corrfunc", some() + ["len"], FLAT[:2] if rng.random() < 0.5 else ())
        add("multipoles", ["den", "len"])
        add("corrfunc", [str(x) for x in rng.permutation(LOCAL + ["g4"])[:5]])
        add("average_multipoles", some())
        add("average_multipoles", some(), FLAT[:1])
        add("average_multipoles", ["den", "len"], FLAT[:2])
        for _ in range(2):
            add("covariance", ["den", "rsd"], rtol=1e-9)
            add("average_covariance", ["den", "rsd"], rtol=1e-9)
    return out


def body(chk):
    rng = np.random.default_rng(chk.seed * 1009 + 12)
    cases = generate(rng, chk.n(1, 30))
    if chk.replaying:
        cases = [chk.replaying["case"]]

    def result(case, res):
        if chk.failed(case, res, "the bulk request"):
            return
        r = res["ok"]
        for kind, msg in r["bad"]:
            chk.violation("%s:%s" % (kind, case["label"]), "%s: %s" % (case["label"], msg), case)
        chk.count("values in first requests", r["n"])
        chk.count("values compared between requests", r["compared"])
        chk.saw("%s %r" % (case["label"], r["first"]), nontrivial=r["size"] > 0 and r["compared"] > 0, sample=dict(label=case["label"], n=r["n"], first=r["first"]), count=r["n"])

    chk.run_cases(cases, on_result=result, timeout=300, workers=3)


if __name__ == "__main__":
    chk = core.Check("C12", __file__, "a distinct bulk request with non-zero values that also appeared in other requests; evaluations counts its values")
    chk.main(body, min_nontrivial=10)
