"""Development helper: plant(id, property, file, edits, needs, breaks, demo) writes /verif/seeded/<id>/.

No registered command uses it.  Edits are (old, new) strings which must occur exactly once (or (old, new, n): n-th)."""
import json, os, subprocess, shutil
PRELUDE = '''import os, sys
sys.setdlopenflags(os.RTLD_LAZY)
sys.path.insert(0, os.path.join(os.getcwd(), "_build", "stage"))
import numpy as np
from coffe import Coffe

def spectrum(c):
    c.set_power_spectrum_linear(*np.transpose(np.loadtxt("PkL_CLASS.dat")))
    return c

def flat(value):
    return [0, 2.5, 5, 10, 15], [value] * 5

def close(a, b, tol, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    scale = np.max(np.abs(b))
    if not np.all(np.abs(a - b) <= tol * scale):
        print("DIFFERENT", what, a, b)
        sys.exit(1)
    print("equal", what, a, b)

'''
def plant(id, prop, path, edits, needs, breaks, demo, prelude=PRELUDE, extra=()):
    clone = '/tmp/plantrepo'
    if not os.path.isdir(clone):
        subprocess.check_call(['git', 'clone', '-q', '/repo', clone])
    subprocess.check_call(['git', '-C', clone, 'pull', '-q'])
    subprocess.check_call(['git', '-C', clone, 'checkout', '-q', '--', '.'])
    for path, edits in [(path, edits), *extra]:
        text = open(f'{clone}/{path}').read()
        for e in edits:
            old, new = e[:2]
            n = text.count(old)
            assert n == 1 or (len(e) == 3 and n >= e[2]), (id, n, old)
            at = -1
            for _ in range(e[2] if len(e) == 3 else 1):
                at = text.index(old, at + 1)
            text = text[:at] + new + text[at + len(old):]
        open(f'{clone}/{path}', 'w').write(text)
    diff = subprocess.check_output(['git', '-C', clone, 'diff'], text=True)
    subprocess.check_call(['git', '-C', clone, 'checkout', '-q', '--', '.'])
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/meta.json', 'w').write(json.dumps({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, indent=1) + '\n')
    open(f'{d}/demo.sh', 'w').write('#!/bin/sh\n# run with cwd at the repository, after a build\nexec /opt/coffe-venv/bin/python "$(dirname "$0")/demo.py"\n')
    open(f'{d}/demo.py', 'w').write(prelude + demo)
