"""Builds coffe from /repo's current working tree, outside of it.

Variants:
  rel   the extension module with the repository's own release flags
  asan  extension with AddressSanitizer + UndefinedBehaviorSanitizer
  tsan  extension with ThreadSanitizer and our instrumented OpenMP runtime
  cli / cli-asan  the coffe-cli program
Builds are cached in /verif/.build (git-ignored) under a hash of every input,
so a change of one byte of /repo gives a new build.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
VENV = "/opt/coffe-venv"
PY = VENV + "/bin/python"
CYTHON = VENV + "/bin/cython"
NATIVE = os.path.join(VERIF, "native")

BASE = ["-std=gnu99", "-fPIC", "-w", "-I" + REPO + "/src"]
LIBS = ["-lgsl", "-lgslcblas", "-lfftw3", "-lconfig", "-lm"]
VARIANTS = {  # shim: own OpenMP runtime without TSan (schedule perturbation)
    "rel": dict(cc="gcc", cflags=["-O3", "-DNDEBUG", "-ffast-math", "-fopenmp"], pyflags=["-O0"],
                ld=["-fopenmp"], extra=["class_standin.c"]),
    "asan": dict(cc="gcc",
                 cflags=["-O1", "-g", "-fno-omit-frame-pointer", "-fopenmp", "-fsanitize=address,undefined",
                         "-fno-sanitize-recover=undefined"],
                 pyflags=["-O0", "-fno-sanitize=undefined"],
                 ld=["-fopenmp", "-fsanitize=address,undefined"], extra=["class_standin.c"]),
    "tsan": dict(cc="gcc", cflags=["-O1", "-g", "-fno-omit-frame-pointer", "-fopenmp", "-fsanitize=thread"],
                 pyflags=["-O0", "-fno-sanitize=thread"],
                 # the OpenMP runtime is our own (native/gomp_shim.c), so -fopenmp is not passed to the linker
                 ld=["-fsanitize=thread", "-lpthread"], extra=["class_standin.c", "gomp_shim.c", "gsl_wrap.c"],
                 wrap=["gsl_spline_eval", "gsl_spline_eval_deriv", "gsl_spline_eval_deriv2", "gsl_spline_eval_integ",
                       "gsl_spline_eval_e", "gsl_interp_eval", "gsl_interp_accel_find", "gsl_interp_accel_reset",
                       "gsl_spline2d_eval", "gsl_spline2d_eval_e", "fftw_plan_dft_1d", "fftw_plan_dft_r2c_1d",
                       "fftw_plan_dft_c2r_1d", "fftw_plan_dft_r2c_2d", "fftw_plan_dft_c2r_2d", "fftw_destroy_plan",
                       "gsl_set_error_handler_off", "gsl_set_error_handler"]),
    "shim": dict(cc="gcc", cflags=["-O2", "-fopenmp", "-ffast-math"], pyflags=["-O0"],
                 ld=["-lpthread"], extra=["class_standin.c", "gomp_shim.c"]),
}
CLI_EXTRA = ['-DPACKAGE_STRING="coffe-verif"']


class BuildError(Exception):
    pass


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=BUILD)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


def _inputs():
    out = []
    for pat in ("src/*.c", "src/*.h", "python/coffe/*"):
        out += sorted(glob.glob(os.path.join(REPO, pat)))
    out += sorted(glob.glob(NATIVE + "/*")) + [os.path.abspath(__file__)]
    return [f for f in out if os.path.isfile(f)]


def _digest(*tags):
    h = hashlib.sha256()
    for f in _inputs():
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    for t in tags:
        h.update(repr(t).encode())
    return h.hexdigest()[:20]


def build(variant="rel", what="ext"):
    """what: 'ext' (returns a directory to put on PYTHONPATH) or 'cli' (returns the program)."""
    os.makedirs(BUILD, exist_ok=True)
    v = VARIANTS[variant]
    tag = "%s-%s-%s" % (what, variant, _digest(v, what))
    final = os.path.join(BUILD, tag)
    result = final if what == "ext" else os.path.join(final, "coffe-cli")
    with open(os.path.join(BUILD, "lock-" + what + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(final, "ok")):
            return result
        # drop builds of the same kind of older trees
        for old in glob.glob(os.path.join(BUILD, "%s-%s-*" % (what, variant))):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(final)
        core = sorted(glob.glob(REPO + "/src/*.c"))
        cli_only = ("main.c", "output.c")
        objs, jobs = [], []
        with cf.ThreadPoolExecutor(8) as ex:
            if what == "ext":
                stage = os.path.join(final, "coffe")
                os.makedirs(stage)
                inc = sysconfig.get_paths(vars={"installed_base": "/usr", "base": "/usr"})["include"]
                inc = subprocess.check_output(
                    [PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"], text=True).strip()

                def pyx():
                    c = os.path.join(final, "coffe.c")
                    _run([CYTHON, "-3", REPO + "/python/coffe/coffe.pyx", "-o", c])
                    _run([v["cc"]] + v["cflags"] + BASE + v["pyflags"] + ["-I" + inc, "-c", c, "-o", c[:-2] + ".pyx.o"])
                objs.append(os.path.join(final, "coffe.pyx.o"))
                jobs.append(ex.submit(pyx))
                core = [c for c in core if os.path.basename(c) not in cli_only]
            core += [os.path.join(NATIVE, e) for e in v["extra"]]
            for c in core:
                o = os.path.join(final, os.path.basename(c)[:-2] + ".o")
                objs.append(o)
                flags = list(v["cflags"])
                if os.path.dirname(c) == NATIVE and os.path.basename(c) == "gomp_shim.c":
                    flags = [f for f in flags if f != "-fopenmp"]
                jobs.append(ex.submit(_run, [v["cc"]] + flags + BASE + (CLI_EXTRA if what == "cli" else []) +
                                      ["-c", c, "-o", o]))
            for j in jobs:
                j.result()
        wraps = ["-Wl,--wrap=" + w for w in v.get("wrap", [])]
        if what == "ext":
            suffix = subprocess.check_output(
                [PY, "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"], text=True).strip()
            _run([v["cc"], "-shared", "-Wl,-z,lazy", "-o", os.path.join(stage, "coffe" + suffix)] + objs +
                 v["ld"] + wraps + LIBS)
            for f in glob.glob(REPO + "/python/coffe/*.py"):
                shutil.copy(f, stage)
        else:
            _run([v["cc"], "-o", result] + objs + v["ld"] + wraps + LIBS)
        for o in objs:
            os.unlink(o)
        with open(os.path.join(final, "ok"), "w"):
            pass
    return result


if __name__ == "__main__":
    import sys
    import time
    args = sys.argv[1:] or ["rel"]
    setup = args == ["--setup"]
    if setup:
        args = ["rel", "rel:cli", "asan", "asan:cli", "tsan", "shim"]
    for a in args:
        t = time.time()
        w, _, k = a.partition(":")
        if any(not os.path.exists(os.path.join(NATIVE, e)) for e in VARIANTS[w]["extra"]):
            continue
        try:
            print(a, build(w, k or "ext"), round(time.time() - t, 1), "s")
        except BuildError as e:
            # the checks report it themselves
            print(e)
            if not setup:
                sys.exit(1)
