"""U03: optional packages are optional, whichever are missing and whenever they arrive."""
import itertools
import json
import os
import subprocess
import sys

from .. import core

RULE = ("interpreters of their own in which a subset of SymPy, Qiskit, Numba, Qgate, the D-Wave client and Matplotlib cannot be imported (every subset occurs): features in random order, each judged by its result, or by the ImportError "
        "that names the missing package; packages arrive in the middle; distinct = subset and sequence")
REQUIRED = ["imported", "core_checked", "core_without_packages", "arrived", "used_after_arrival"] + [f"{a}_{p}" for a in ("refused", "used") for p in ("sympy", "qiskit", "numba", "qgate", "dwave", "matplotlib")]
ASSUMES = ["stand-ins for Numba, Qgate, the D-Wave client and Matplotlib; a missing package is one whose import raises ModuleNotFoundError"]
PACKAGES = ["sympy", "qiskit", "numba", "qgate", "dwave", "matplotlib"]
SUBSETS = [c for k in range(7) for c in itertools.combinations(PACKAGES, k)]
CHILD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "optional_child.py")


def plan(tier):
    return [("subset", 64 * (2 if tier == "quick" else 8))]


def case(t, kind):
    rng = t.rng
    missing = SUBSETS[t.idx % 64]
    job = dict(repo=core.REPO, seed=rng.getrandbits(31), missing=missing, arrive=rng.choice([0, .08, .2]), steps=rng.choice([15, 40]), qiskit="qiskit" in missing and rng.random() < .6 or rng.random() < .35)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
    p = subprocess.run([sys.executable, CHILD], input=json.dumps(job), capture_output=True, text=True, timeout=300, env=env)
    if p.returncode or not p.stdout.strip():
        t.fail("the interpreter ended without an answer", job=job, output=p.stdout[-500:], errors=p.stderr[-1500:])
    r = json.loads(p.stdout.strip().splitlines()[-1])
    for k, v in r["events"].items():
        t.ev(k, v)
    if r["broken"]:
        raise RuntimeError(r["broken"])
    t.check(r["error"] is None, "Blueqat without some optional packages does not do the rest as before", complaint=r["error"], missing=missing, steps=r["log"])
    t.key(missing, tuple(r["log"]))
    t.sample = f"without {missing}: {' ; '.join(r['log'][:10])}"
