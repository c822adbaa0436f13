"""C21: interleaved objects replayed in isolation; monitor of the numeric state of the process."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np  # noqa: E402
from vlib import apimodel as A  # noqa: E402
from vlib import core  # noqa: E402


class Process:
    """floating-point control, GSL error handler, locale, number of threads: what other code of the process relies on"""

    def __init__(self):
        import ctypes as C
        import glob  # noqa: F401
        self.C = C
        libs = {}
        with open("/proc/self/maps") as f:
            for line in f:
                p = line.split()
                if len(p) > 5 and ".so" in p[5]:
                    libs[os.path.basename(p[5]).split(".so")[0]] = p[5]
        self.m = C.CDLL("libm.so.6")
        self.gsl = C.CDLL(libs["libgsl"]) if "libgsl" in libs else None
        self.omp = C.CDLL(libs["libgomp"]) if "libgomp" in libs else None
        if self.gsl:
            self.gsl.gsl_set_error_handler.restype = C.c_void_p
            self.gsl.gsl_set_error_handler.argtypes = [C.c_void_p]

    def install(self):
        """a handler of our own, as a program which uses GSL next to coffe has"""
        self.calls = []
        self.handler = self.C.CFUNCTYPE(None, self.C.c_char_p, self.C.c_char_p, self.C.c_int, self.C.c_int)(lambda *a: self.calls.append(a))
        self.gsl.gsl_set_error_handler(self.C.cast(self.handler, self.C.c_void_p))

    def state(self):
        import ctypes.util  # noqa: F401
        import locale
        C = self.C
        env = (C.c_uint8 * 64)()
        self.m.fegetenv(env)
        raw = bytes(env)
        mxcsr = int.from_bytes(raw[28:32], "little") & ~0x3f      # without the sticky status flags
        x87 = int.from_bytes(raw[0:2], "little")
        out = dict(mxcsr=mxcsr, x87=x87, rounding=self.m.fegetround(), traps=self.m.fegetexcept(),
                   denormal=float(np.float64(5e-324) / np.float64(1)) != 0 and (np.full(9, 2e-308) / 4 != 0).all().item(),
                   locale=locale.setlocale(locale.LC_ALL), cwd=os.getcwd(), numpy=str(np.geterr()))
        if self.omp:
            out["threads"] = self.omp.omp_get_max_threads()
        if self.gsl:
            h = self.gsl.gsl_set_error_handler(None)
            self.gsl.gsl_set_error_handler(h)
            out["gsl"] = h
        return out


def play(case):
    """performs the operations of several objects in the given interleaving; each object's answers, and what changed in the process"""
    import gc
    before_import = Process().state()
    import coffe
    p = Process()
    objs, answers, state = {}, {}, []
    after = p.state()
    for k, v in before_import.items():
        if k in after and after[k] != v:
            state.append(("import coffe", k, repr(v), repr(after[k])))
    if case.get("handler") and p.gsl:
        p.install()
    base = p.state()
    for who, op in case["ops"]:
        if op[0] == "del":
            objs.pop(who, None)
            gc.collect()
        else:
            if who not in objs:
                objs[who] = coffe.Coffe()
                answers.setdefault(who, [])
            r, e = A.attempt(A.run, objs[who], op)
            if op[0] in ("q", "check"):
                answers[who].append(e or [float(x) for x in r])
            elif e:
                answers[who].append(e)
        now = p.state()
        for k in base:
            if now[k] != base[k]:
                state.append((repr(op)[:200], k, repr(base[k]), repr(now[k])))
        base = now
    if case.get("handler") and p.gsl and p.calls:
        state.append(("calls", "gsl handler of the program called", "", repr(p.calls[:2])))
    return dict(answers={str(k): v for k, v in answers.items()}, state=state)


def history(rng, n, names):
    g = A.Generator(rng, names)
    ops = g.start()
    for _ in range(n):
        u = rng.random()
        if u < 0.4:
            ops += g.setter()
        elif u < 0.92:
            ops.append(g.query())
        else:
            ops.append(g.reader())
    ops.append(g.query())
    return ops


def interleave(rng, hists):
    """random merge in bursts; objects are destroyed at their end or kept"""
    left = {k: list(h) for k, h in hists.items()}
    keep = {k: rng.random() < 0.4 for k in hists}
    out = []
    while left:
        k = list(left)[int(rng.integers(len(left)))]
        for _ in range(int(rng.choice([1, 1, 2, 5, 12]))):
            if not left[k]:
                break
            out.append([k, left[k].pop(0)])
        if not left[k]:
            del left[k]
            if not keep[k]:
                out.append([k, ["del"]])
    return out


def generate(chk):
    rng = np.random.default_rng(chk.seed * 31 + 21)
    groups = []
    for i in range(chk.n(18, 500)):
        n = int(rng.choice([2, 2, 3, 4]))
        names = A.CHEAP + (["len"] if i % 2 else []) + (A.POT if i % 6 == 5 else [])
        hists = {}
        twin = rng.random() < 0.4
        first = history(rng, int(rng.integers(6, 14)), names)
        for k in range(n):
            if k and twin and rng.random() < 0.6:
                # nearly the same object: what leaks between them would go unnoticed only here if the difference is not looked at
                h = [list(o) for o in first]
                g = A.Generator(rng, names)
                at = int(rng.integers(1, len(h)))
                h[at:at] = g.setter()
            else:
                h = first if not k else history(rng, int(rng.integers(6, 14)), names)
            hists[k] = h
        groups.append((hists, interleave(rng, hists), bool(i % 2)))
    # what raises, and in the middle of a computation
    return groups


def body(chk):
    groups = [(chk.replaying["case"]["hists"], chk.replaying["case"]["ops"], chk.replaying["case"]["handler"])] if chk.replaying else generate(chk)
    cases, where = [], []
    for gi, (hists, ops, handler) in enumerate(groups):
        cases.append(dict(fn="play", ops=ops, handler=handler, label="interleaved"))
        where.append((gi, None))
        for k, h in hists.items():
            cases.append(dict(fn="play", ops=[[k, o] for o in h] + [[k, ["del"]]], handler=False, label="alone"))
            where.append((gi, str(k)))
    res = chk.run_cases(cases, workers=8, timeout=200, env={"OMP_NUM_THREADS": "1"}, fresh=True)
    together, alone = {}, {}
    for c, w, r in zip(cases, where, res):
        gi, k = w
        full = dict(hists={str(a): b for a, b in groups[gi][0].items()}, ops=groups[gi][1], handler=groups[gi][2])
        if chk.failed(dict(full, label=c["label"], fn="play"), r, "valid operations"):
            continue
        v = r["ok"]
        for op, what, a, b in v["state"]:
            chk.violation("state:%s" % what, "%s: %s was %s and is %s afterwards" % (op, what, a, b), full)
        chk.count("operations after which the process was inspected", len(c["ops"]))
        if k is None:
            together[gi] = v["answers"]
        else:
            alone.setdefault(gi, {}).update(v["answers"])
    for gi, t in together.items():
        full = dict(hists={str(a): b for a, b in groups[gi][0].items()}, ops=groups[gi][1], handler=groups[gi][2])
        switches = sum(a[0] != b[0] for a, b in zip(full["ops"], full["ops"][1:]))
        chk.count("switches between objects", switches)
        for k, a in t.items():
            b = alone.get(gi, {}).get(k)
            if b is None:
                continue
            qs = [o for o in full["hists"][k] if o[0] in ("q", "check")]
            worst = 0.0
            for i, (x, y) in enumerate(zip(a, b)):
                if isinstance(x, str) or isinstance(y, str):
                    ok = x == y
                else:
                    e = A.agree(x, y, 1e-10)
                    worst = max(worst, e)
                    ok = e <= 1
                if not ok:
                    chk.violation("differs:%s" % "answer", "object %s of %d, answer %d: %r with the other objects, %r alone" % (k, len(t), i, x[:6] if x else x, y[:6] if y else y), full)
                    break
            if len(a) != len(b):
                chk.violation("differs:count", "object %s gave %d answers with the others and %d alone" % (k, len(a), len(b)), full)
            chk.maximum("difference/allowed", worst)
            chk.saw(("object", gi, k), nontrivial=switches > 1 and any(not isinstance(x, str) and len(x) for x in a), count=len(a),
                    sample=dict(objects=len(t), switches=switches, answers=[x if isinstance(x, str) else x[:3] for x in a[:4]], queries=[q[1] for q in qs[:4]]))
    if not chk.replaying and not together:
        chk.inconclusive.append("nothing ran")


if __name__ == "__main__":
    core.Check("C21", __file__,
               "an object's answers in a random interleaving of 2-4 objects equal its answers alone in a fresh process; after every operation the "
               "floating-point control words, GSL error handler, locale, cwd and OpenMP settings are as before; an object counts when the "
               "interleaving switched between objects more than once and it returned values",
               assumptions=["single-threaded interleaving at operation granularity: the API holds the GIL throughout",
                            "CLASS is replaced by a stand-in with an analytic spectrum (the real library is not installed)"]).main(body, min_nontrivial=1 if "--replay" in sys.argv else 20)
