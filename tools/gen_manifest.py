"""Writes MANIFEST.json for the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": "runtime monitor: library tables compared with an independent ODE solution on random cosmologies",
    "C02": "runtime monitor: library integrals compared with direct quadrature of random spectra",
    "C03": "runtime monitor: executed two-point functions compared with an operator-expectation oracle",
    "C04": "runtime monitor: executed two-point functions compared with line-of-sight quadrature of operator kernels",
    "C05": "runtime monitor: flat-sky results compared with plane-parallel oracle, projections and full-sky limit",
    "C06": "runtime monitor: multipoles compared with Legendre projection of observed two-point values",
    "C07": "runtime monitor: averaged multipoles compared with bin averages of observed multipoles",
    "C08": "runtime monitor: superposition and scaling relations between executions",
    "C09": "runtime monitor: exchange relation between executions",
    "C10": "runtime monitor: symmetry, eigenvalue, additivity and scaling monitors on executed covariances",
    "C11": "runtime monitor: covariance elements compared with direct quadrature",
    "C12": "offline checker over recorded bulk outputs: exactly-once, ordering, labels, equality with single calls",
    "C13": "runtime monitor: random API histories, final state replayed in a fresh object",
    "C14": "runtime monitor: round trips of random configurations compared field by field and by result",
    "C15": "runtime monitor: read-back model and state snapshots around setter calls",
    "C16": "AddressSanitizer, UndefinedBehaviorSanitizer and valgrind memcheck under random histories and CLI runs",
    "C17": "ThreadSanitizer with an instrumented OpenMP runtime, schedule perturbation, bitwise comparison",
    "C18": "allocation ledger over repeated histories (interposed allocator) and LeakSanitizer",
    "C19": "runtime monitor: program output files compared with API results",
    "C20": "fault injection in settings and data files, exit status, sanitizer and complete-read oracle",
    "C21": "runtime monitor: interleaved objects replayed in isolation; process-state monitor",
    "C22": "runtime monitor: hostile arguments, process survival and finiteness",
}
NOTE = json.load(open(os.path.join(V, "tools", "level_notes.json")))
checks = []
for i in sorted(T):
    f = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(V, f)):
        checks.append(dict(property=i, quick_cmd="/opt/coffe-venv/bin/python %s" % f,
                           thorough_cmd="VERIF_TIER=thorough /opt/coffe-venv/bin/python %s" % f,
                           evidence_file="evidence/%s.json" % i, technique=T[i], level="exploration",
                           level_note=NOTE.get(i, "oracle over sampled executions; nothing beyond what was run is claimed")))
m = dict(version=1, setup_cmd="/opt/coffe-venv/bin/python -m vlib.build --setup",
         checks=checks, not_applicable=[])
todo = [i for i in sorted(T) if not os.path.exists(os.path.join(V, "checks/%s.py" % i.lower()))]
m["not_applicable"] = [dict(property=i, reason="no check built yet") for i in todo]
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks;", "missing", todo)
