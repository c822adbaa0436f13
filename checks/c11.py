"""C11: covariance elements against direct quadrature of the Gaussian formula."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np  # noqa: E402
from vlib import core  # noqa: E402
from vlib import covar as C  # noqa: E402
from vlib import twopoint as TP  # noqa: E402


def evaluate(case):
    from vlib import coffeutil as U
    c = C.configure(case)
    bg = U.background(c)
    s = case["survey"]
    out = []
    parts = [C.PARTS] + [(p,) for p in C.PARTS]
    g = C.Gaussian(case, bg)
    for part in parts:
        got, ref = C.matrix(c, s, part), g.matrix(part)
        for q in range(len(s["z"])):
            d = np.einsum("ijij->ij", np.abs(ref[q]))
            # the quadrature precision refers to integrals of which an element may be a small difference
            scale = np.sqrt(d[:, :, None, None] * d[None, None])
            # populations whose diagonal vanishes by parity still have the digits of the size of each term
            top = np.abs(ref[q]).max()
            err = np.abs(got[q] - ref[q]) / (case["tol"] * (scale + np.abs(ref[q])) + 1e-12 * top + 1e-300)
            if top == 0:
                # compare with the size of what cancels
                err = np.abs(got[q]) / (1e-10 * max(np.abs(g.matrix((p,))).max() for p in C.PARTS) + 1e-300)
            w = np.unravel_index(np.argmax(err), err.shape)
            out.append(dict(part="+".join(x[11:] for x in part), bin=q, n=int(ref[q].size), err=float(err.max()),
                            where=[s["l"][w[0]], s["sep"][w[1]], s["l"][w[2]], s["sep"][w[3]]], got=float(got[q][w]), ref=float(ref[q][w]), top=float(top)))
    return dict(points=out)


def generate(rng, n):
    out = []

    def add(tol, method="standard", type="gsl", sampling=1000, interp="bicubic", **kw):
        cosmo, spec = TP.cosmology(rng), TP.spectrum(rng)
        s = C.survey(rng, **kw)
        s.update(method=method, type=type, sampling=sampling, interp=interp)
        if rng.random() < 0.15:
            s.update(den=False, rsd=True)
        out.append(dict(fn="evaluate", set=cosmo, spec=spec, bias={k: list(v) for k, v in TP.biases(rng).items()}, survey=s, tol=tol,
                        label="%s/%s%s%s pops=%s l=%s" % (method, type, "/binned" if s["binned"] else "", "/average" if s["average"] else "",
                                                          "".join(map(str, s["pops"])), ",".join(map(str, s["l"])))))
    for _ in range(n):
        for average in (False, True):
            add(1e-3, average=average, nbins=2)
            add(1e-3, average=average, nbins=2, populations=rng.choice([(1, 1, 1, 1), (1, 2, 1, 2), (2, 2, 2, 2)]))
            add(1e-3, average=average, populations=rng.integers(1, 5, 4), nbins=1)
            add(1e-3, average=average, populations=rng.choice([1, 2], 4), nbins=2, ls=rng.permutation([0, 2, 4, 6])[:2])
            add(1e-3, average=average, binned=True, nbins=3, nsep=3)
            add(3e-3, average=average, type="exponential", nbins=1, nsep=2)
        add(1e-3, binned=True, nbins=2, populations=rng.integers(1, 4, 4))
        add(1e-3, ls=[1, 3], populations=(1, 2, 1, 2), nsep=2)
        add(1e-3, ls=[3, 0, 1], populations=rng.choice([1, 2], 4), nsep=2)
        add(1e-3, ls=[1], populations=(1, 1, 1, 1), nsep=2)
        add(1e-3, ls=rng.permutation([1, 2, 3, 4, 5])[:2], binned=True, populations=(1, 2, 1, 2), nsep=2)
    for _ in range(max(1, n // 3)):
        add(2e-2, method="fftlog", sampling=600, nbins=2, populations=rng.choice([1, 2], 4))
        add(2e-2, method="fftlog", sampling=800, interp="bilinear", average=True)
        add(1e-3, ls=[5,6], binned=True)
        add(1e-3, ls=[4,6], binned=True)
        add(1e-3, ls=[4,5,6,7,8])
        add(1e-3, ls=[2,3], binned=True)
    return out


def body(chk):
    rng = np.random.default_rng(chk.seed * 1009 + 11)
    cases = generate(rng, chk.n(1, 25))
    if chk.replaying:
        cases = [chk.replaying["case"]]

    def result(case, res):
        if chk.failed(case, res, "computing the covariance"):
            return
        for pt in res["ok"]["points"]:
            kind = case["label"].split()[0]
            chk.maximum("difference/allowed %s" % kind, pt["err"])
            chk.count("elements compared", pt["n"])
            if not pt["err"] <= 1:
                chk.violation("covariance:%s:%s" % (pt["part"], case["label"]), "%s, part %s, bin %d, (l1,r1,l2,r2) = %s: %.8g, Gaussian formula %.8g (%.3g of what is allowed)" % (
                    case["label"], pt["part"], pt["bin"], pt["where"], pt["got"], pt["ref"], pt["err"]), case)
            chk.saw("%s %s %d %.6g" % (case["label"], pt["part"], pt["bin"], pt["top"]), nontrivial=pt["top"] != 0, sample=pt, count=pt["n"])

    chk.run_cases(cases, on_result=result, timeout=400)


if __name__ == "__main__":
    chk = core.Check("C11", __file__, "a distinct (configuration, part, redshift bin) with a non-zero covariance; evaluations counts its elements",
                     assumptions=["the averaged covariance is that of the un-normalised H0/H weight (effective volume 4 pi fsky / int H0^2 dz / (H chi^2)), as the stored benchmarks have it"])
    chk.main(body, min_nontrivial=40)
