"""Shared harness: worker pool, verdicts, known findings, evidence files."""
import argparse
import json
import os
import pickle
import queue
import re
import resource
import select
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import time

from . import build as B

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


def _jsonable(x):
    try:
        import numpy as np
        if isinstance(x, np.ndarray):
            return x.tolist()
        if isinstance(x, np.generic):
            return x.item()
    except ImportError:
        pass
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [_jsonable(v) for v in x]
    if isinstance(x, bytes):
        return x.decode("latin1")
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class HarnessError(Exception):
    pass


class Worker:
    def __init__(self, module, pythonpath, env, tmp, prefix=()):
        self.err = tempfile.NamedTemporaryFile(dir=tmp, prefix="err", delete=False)
        e = {k: v for k, v in os.environ.items() if not k.startswith(("OMP_", "GOMP_", "LD_PRELOAD"))}
        e.update(PYTHONPATH=pythonpath, PYTHONDONTWRITEBYTECODE="1", OMP_WAIT_POLICY="passive",
                 PATH=B.VENV + "/bin:" + e.get("PATH", "/usr/bin:/bin"), TMPDIR=tmp, COFFE_VERIF_WORKER="1")
        e.setdefault("OMP_NUM_THREADS", "1")
        e.update(env)
        cmd = list(prefix) + [B.PY, os.path.join(VERIF, "vlib", "worker.py"), module]
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e,
                                  cwd=tmp, start_new_session=True)

    def _read(self, n, deadline):
        buf = b""
        fd = self.p.stdout.fileno()
        while len(buf) < n:
            left = deadline - time.time()
            if left <= 0:
                return None
            r, _, _ = select.select([fd], [], [], min(left, 5))
            if r:
                d = os.read(fd, n - len(buf))
                if not d:
                    return b""
                buf += d
        return buf

    def call(self, case, timeout):
        data = pickle.dumps(case)
        deadline = time.time() + timeout
        try:
            self.p.stdin.write(struct.pack("<Q", len(data)) + data)
            self.p.stdin.flush()
        except BrokenPipeError:
            return self._dead()
        head = self._read(8, deadline)
        if head is None:
            self.kill()
            return {"timeout": timeout}
        if head == b"":
            return self._dead()
        body = self._read(struct.unpack("<Q", head)[0], deadline + 30)
        if not body:
            return self._dead()
        return pickle.loads(body)

    def stderr(self, n=6000):
        self.err.flush()
        try:
            with open(self.err.name, "rb") as f:
                return f.read()[-n:].decode("latin1")
        except OSError:
            return ""

    def _dead(self):
        try:
            rc = self.p.wait(20)
        except subprocess.TimeoutExpired:
            self.kill()
            rc = -99
        return {"crash": rc, "stderr": self.stderr()}

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass
        self.p.wait()

    def close(self, timeout=60):
        """Ends the worker normally; returns its exit status (None: had to be killed)."""
        try:
            self.p.stdin.close()
            return self.p.wait(timeout)
        except (subprocess.TimeoutExpired, BrokenPipeError, OSError):
            self.kill()
            return None


class Check:
    def __init__(self, pid, module, rule, level="exploration", assumptions=()):
        ap = argparse.ArgumentParser()
        ap.add_argument("--replay")
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
        ap.add_argument("--scale", type=float, default=1.0)
        ap.add_argument("--verbose", action="store_true")
        a = ap.parse_args()
        self.args = a
        self.pid, self.module, self.rule, self.level = pid, os.path.abspath(module), rule, level
        self.tier = "thorough" if a.tier == "thorough" else "quick"
        self.seed = a.seed
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.maxima = {}
        self.violations = []
        self.known_hit = {}
        self.inconclusive = []
        self.tmp = tempfile.mkdtemp(prefix="coffe-verif-%s-" % pid)
        self.known = self._load_known()
        self._lock = threading.Lock()
        self.replaying = json.load(open(a.replay)) if a.replay else None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return max(1, int((thorough if self.thorough else quick) * self.args.scale))

    # -- known findings -------------------------------------------------
    def _load_known(self):
        out = []
        try:
            with open(KNOWN) as f:
                for line in f:
                    line = line.rstrip("\n")
                    m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", line)
                    if m and m.group(1) == self.pid:
                        out.append((m.group(2), m.group(3)))
        except OSError:
            pass
        return out

    # -- observations ---------------------------------------------------
    def saw(self, sig, nontrivial=True, sample=None, count=1):
        with self._lock:
            self.evaluations += count
            if nontrivial:
                self.distinct.add(sig if isinstance(sig, (str, int, tuple)) else json.dumps(_jsonable(sig), sort_keys=True))
            if sample is not None and len(self.samples) < 6:
                self.samples.append(_jsonable(sample))

    def count(self, name, k=1):
        with self._lock:
            self.counters[name] = self.counters.get(name, 0) + k

    def maximum(self, name, v):
        v = float(v)
        with self._lock:
            if not (self.maxima.get(name, -1.0) >= v):
                self.maxima[name] = v

    def violation(self, key, msg, case=None):
        """key: stable identity of the failing input/call site, matched against known findings."""
        with self._lock:
            for k, text in self.known:
                if k == key:
                    self.known_hit.setdefault(k, text)
                    return
            if any(v[0] == key for v in self.violations) and len(self.violations) > 0:
                self.violations.append((key, msg, None))
                return
            path = None
            d = os.path.join(VERIF, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations)))
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, key=key, message=msg, tier=self.tier, seed=self.seed,
                               case=_jsonable(case)), f, indent=1)
            self.violations.append((key, msg, path))
            if len([v for v in self.violations if v[2]]) <= 10:
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("  [%s] %s" % (key, msg[:600]), flush=True)

    def note(self, *a):
        if self.args.verbose:
            print(*a, flush=True)

    # -- running cases --------------------------------------------------
    def ext(self, variant="rel"):
        return B.build(variant, "ext")

    def cli(self, variant="rel"):
        return B.build(variant, "cli")

    def run_cases(self, cases, variant="rel", workers=8, timeout=120, env=None, fresh=False, on_result=None, prefix=(),
                  retry=True):
        """Runs every case in worker processes, returns results in order.

        A result is {'ok': value}, {'error': ...} (Python exception), {'crash': status, 'stderr': ...}
        or {'timeout': s} (after one retry)."""
        stage = self.ext(variant)
        results = [None] * len(cases)
        q = queue.Queue()
        for i, c in enumerate(cases):
            q.put((i, c))
        env = dict(env or {})

        def loop():
            w = None
            while True:
                try:
                    i, c = q.get_nowait()
                except queue.Empty:
                    break
                res = None
                for attempt in (0, 1):
                    if w is None:
                        e = dict(env)
                        e.update(c.get("_env", {}))
                        w = Worker(self.module, stage, e, self.tmp, prefix)
                    res = w.call(c, timeout * (1 + 2 * attempt))
                    if "ok" in res or "error" in res:
                        if fresh or "_env" in c:
                            st = w.close()
                            res["exit"] = st
                            res["stderr"] = w.stderr()
                            w = None
                        break
                    w = None
                    if "timeout" in res and retry and attempt == 0:
                        continue
                    break
                results[i] = res
                if on_result:
                    on_result(c, res)
            if w is not None:
                w.close()

        ts = [threading.Thread(target=loop) for _ in range(min(workers, max(1, len(cases))))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for r in results:
            if r is None:
                raise HarnessError("a worker thread failed")
        return results

    def failed(self, case, res, what="a valid request"):
        """Handles abnormal results of a case that must succeed; True if it was abnormal."""
        if "ok" in res:
            return False
        if "crash" in res:
            self.violation("died:%s" % case.get("label", case["fn"]),
                           "the process ended (status %s) during %s: %s" % (res["crash"], what, res["stderr"][-1500:]), case)
        elif "timeout" in res:
            self.violation("hang:%s" % case.get("label", case["fn"]),
                           "no answer within %s s (twice) for %s" % (res["timeout"], what), case)
        else:
            self.violation("raised:%s" % case.get("label", case["fn"]),
                           "%s raised %s\n%s" % (what, res["error"], res["trace"][-1500:]), case)
        return True

    # -- verdict --------------------------------------------------------
    def finish(self, min_nontrivial=1):
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.rule,
                   samples=self.samples or ["(none)"], counters=self.counters,
                   maxima={k: float("%.3g" % v) for k, v in self.maxima.items()})
        if self.known_hit:
            cov["known_findings_seen"] = sorted(self.known_hit)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k, text in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        shutil.rmtree(self.tmp, ignore_errors=True)
        print("%s: %d evaluations, %d distinct non-trivial, %d violations, %.1f s %s" % (
            self.pid, self.evaluations, len(self.distinct), len(self.violations), time.time() - self.t0,
            json.dumps(dict(cov["counters"], **cov["maxima"]))), flush=True)
        if self.violations:
            sys.stdout.flush()
            os._exit(1)
        if len(self.distinct) < min_nontrivial:
            print("harness error: only %d non-trivial observations" % len(self.distinct))
            os._exit(2)
        os._exit(0)

    def main(self, body, **kw):
        try:
            body(self)
        except (HarnessError, B.BuildError) as e:
            print("harness error: %s" % e)
            shutil.rmtree(self.tmp, ignore_errors=True)
            os._exit(2)
        except BaseException:
            import traceback
            traceback.print_exc()
            shutil.rmtree(self.tmp, ignore_errors=True)
            os._exit(2)
        self.finish(**kw)
