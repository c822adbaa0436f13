"""C10: structure of executed covariances: symmetry, positivity, additivity, scalings, independence of the bins."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np  # noqa: E402
from vlib import core  # noqa: E402
from vlib import covar as C  # noqa: E402
from vlib import twopoint as TP  # noqa: E402


def monitor(case):
    c = C.configure(case)
    s = case["survey"]
    rng = np.random.default_rng(case["seed"])
    nb, nl, nr = len(s["z"]), len(s["l"]), len(s["sep"])
    quad = case["tol"]
    out = []

    def add(what, err, **kw):
        out.append(dict(what=what, err=float(err), **kw))

    def diff(what, got, ref, tol, scale=None):
        """largest difference in units of tol x (scale or the size of each element), per bin"""
        for q in range(got.shape[0]):
            sc = np.abs(ref[q]) if scale is None else scale[q]
            d = np.abs(got[q] - ref[q])
            with np.errstate(invalid="ignore", divide="ignore"):
                e = np.where(d == 0, 0, d / (tol * sc))
            add(what, np.nanmax(e) if not np.isnan(d).any() else np.inf, bin=q)

    full = C.matrix(c, s)
    parts = {p: C.matrix(c, s, (p,)) for p in C.PARTS}
    cos, mix, poi = (parts[p] for p in C.PARTS)
    # every element is accompanied by the square root of the diagonal elements it belongs to
    dia = np.einsum("qijij->qij", np.abs(full))
    size = np.sqrt(dia[:, :, :, None, None] * dia[:, None, None])
    absum = np.abs(cos) + np.abs(mix) + np.abs(poi)
    symmetric_pops = s["pops"][:2] == s["pops"][2:]
    if symmetric_pops:
        diff("symmetry", full, full.transpose(0, 3, 4, 1, 2), quad, size + absum)
        for q in range(nb):
            for name, m in (("full", full), ("cosmic", cos), ("mixed", mix), ("poisson", poi)):
                M = m[q].reshape(nl * nr, nl * nr)
                # (the cosmic part of odd multipoles cancels identically)
                floor = 1e-9 * dia[q].reshape(-1)
                d = np.sqrt(np.abs(np.diag(M)) + floor)
                if not d.any():
                    continue
                d[d == 0] = 1
                ev = np.linalg.eigvalsh((M + M.T) / 2 / np.outer(d, d))
                # quadrature errors can shift an eigenvalue by as much as the number of elements
                add("eigenvalues " + name, -ev.min() / (10 * quad * nl * nr), bin=q, smallest=float(ev.min()))
                add("diagonal " + name, 0.0 if (np.diag(M) >= -floor).all() else np.inf, bin=q)
    diff("sum of the parts", cos + mix + poi, full, 1e-12, absum)
    for a, b in ((0, 1), (0, 2), (1, 2)):
        diff("sum of two parts", C.matrix(c, s, (C.PARTS[a], C.PARTS[b])), parts[C.PARTS[a]] + parts[C.PARTS[b]], 1e-12, absum)
    for q in range(nb):
        add("no parts", np.abs(C.matrix(c, s, ())).max() and np.inf, bin=q)

    def variant(parts=C.PARTS, **kw):
        t = dict(s, **kw)
        C.apply(c, t)
        return C.matrix(c, t, parts)
    # scaling with the sky fraction and the number densities
    a = float(rng.uniform(0.1, 0.9))
    diff("1/fsky", variant(fsky=[a * x for x in s["fsky"]]), full / a, 1e-10, absum / a)
    a, b = [float(x) for x in rng.uniform(0.2, 5, 2)]
    d1, d2 = [a * x for x in s["n1"]], [b * x for x in s["n2"]]
    diff("cosmic without densities", variant(C.PARTS[:1], n1=d1, n2=d2), cos, 1e-12)
    diff("poisson 1/(n1 n2)", variant(C.PARTS[2:], n1=d1, n2=d2), poi / (a * b), 1e-10)
    diff("mixed 1/n", variant(C.PARTS[1:2], n1=[a * x for x in s["n1"]], n2=[a * x for x in s["n2"]]), mix / a, 1e-10, np.abs(mix / a))
    inf = [9.9e0] * nb
    m1, m2 = variant(C.PARTS[1:2], n2=inf), variant(C.PARTS[1:2], n1=inf)
    both = variant(C.PARTS[1:2], n1=inf, n2=inf)
    diff("mixed, densities apart", m1 + m2 - both, mix, 1e-9, np.abs(m1) + np.abs(m2) + np.abs(mix))
    # every bin alone, and in another order, gives the same
    keys = ("z", "dz", "n1", "n2", "fsky", "pix")
    for q in range(nb):
        alone = variant(**{k: [s[k][q]] for k in keys})
        diff("a bin alone", alone, full[q:q + 1], quad / 10, (size + absum)[q:q + 1])
    order = rng.permutation(nb)
    diff("bins in another order", variant(**{k: [s[k][int(q)] for q in order] for k in keys}), full[order], quad / 10, (size + absum)[order])
    # fewer separations and multipoles
    if nr > 1:
        keep = sorted(rng.choice(nr, nr - 1, replace=False).tolist())
        got = variant(sep=[s["sep"][i] for i in keep])
        ref, sc = (m[:, :, keep][:, :, :, :, keep] for m in (full, size + absum))
        diff("fewer separations", got, ref, case["grid"], sc)
    if nl > 1:
        keep = rng.permutation(nl)[:nl - 1].tolist()
        got = variant(l=[s["l"][i] for i in keep])
        ref, sc = (m[:, keep][:, :, :, keep] for m in (full, size + absum))
        diff("fewer multipoles", got, ref, quad, sc)
    # the order of the two members of each pair: parity of the multipoles
    p1, p2, p3, p4 = s["pops"]
    sign = np.array([(-1.0) ** l for l in s["l"]])
    swap = variant(pops=[p2, p1, p4, p3], n1=s["n2"], n2=s["n1"])
    diff("both pairs reversed", swap, full * sign[None, :, None, None, None] * sign[None, None, None, :, None], quad, size + absum)
    return dict(points=out, top=float(np.abs(full).max()))


def generate(rng, n):
    out = []

    def add(tol=3e-4, grid=None, method="standard", type="gsl", sampling=1000, interp="bicubic", **kw):
        cosmo, spec = TP.cosmology(rng), TP.spectrum(rng)
        s = C.survey(rng, **kw)
        s.update(method=method, type=type, sampling=sampling, interp=interp)
        out.append(dict(fn="monitor", set=cosmo, spec=spec, bias={k: list(v) for k, v in TP.biases(rng).items()}, survey=s, tol=tol, grid=grid or tol,
                        seed=int(rng.integers(1 << 30)),
                        label="%s/%s%s%s pops=%s l=%s" % (method, type, "/binned" if s["binned"] else "", "/average" if s["average"] else "",
                                                          "".join(map(str, s["pops"])), ",".join(map(str, s["l"])))))
    for _ in range(n):
        for average in (False, True):
            add(average=average, nbins=3)
            add(average=average, nbins=2, populations=(1, 2, 1, 2))
            add(average=average, nbins=3, binned=True, nsep=3)
            add(average=average, nbins=2, populations=rng.integers(1, 5, 4))
        add(nbins=2, ls=[0, 1, 2], populations=(1, 2, 1, 2), nsep=2)
        add(nbins=2, ls=rng.permutation([1, 2, 3, 4])[:3], populations=[(1, 2, 1, 2), (2, 1, 2, 1), (1, 2, 2, 1)][rng.integers(3)], nsep=2, binned=True)
        add(nbins=2, populations=(1, 2, 2, 1), average=True)
        add(nbins=1, populations=(3, 4, 3, 4), nsep=5)
        add(nbins=2, type="exponential", nsep=2, tol=1e-3, ls=[0, 2])
        add(nbins=2, method="fftlog", nsep=2, tol=5e-3, sampling=600)
    return out


def body(chk):
    rng = np.random.default_rng(chk.seed * 1009 + 10)
    cases = generate(rng, chk.n(1, 25))
    if chk.replaying:
        cases = [chk.replaying["case"]]

    def result(case, res):
        if chk.failed(case, res, "computing the covariance"):
            return
        for pt in res["ok"]["points"]:
            chk.maximum("%s/allowed" % pt["what"], pt["err"])
            if not pt["err"] <= 1:
                chk.violation("%s:%s" % (pt["what"].replace(" ", "-"), case["label"]), "%s: %s is off by %.3g times what is allowed (%s)" % (
                    case["label"], pt["what"], pt["err"], {k: v for k, v in pt.items() if k not in ("what", "err")}), case)
            chk.saw("%s %s %d %.6g" % (case["label"], pt["what"], pt["bin"], res["ok"]["top"]), nontrivial=res["ok"]["top"] > 0, sample=dict(pt, label=case["label"]))

    chk.run_cases(cases, on_result=result, timeout=400)


if __name__ == "__main__":
    chk = core.Check("C10", __file__, "a distinct (configuration, relation, redshift bin) with a covariance that is not zero")
    chk.main(body, min_nontrivial=200)
