"""U04: interpreter switches and process-wide settings neither change Blueqat's results nor are changed by it."""
import json
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile

from .. import core

SETTINGS = ["np_raise", "np_call", "np_print", "np_legacy", "np_buffer", "decimal", "gc_off", "gc_hard", "switch", "warn_error", "stdout_none", "stdout_closed", "mp_dps", "cwd_gone", "umask", "profile", "trace",
            "environ", "logging_off", "int_digits", "limit"]
PLACES = ["in_thread", "in_asyncio", "in_deep", "in_handler", "in_generator", "in_signal"]
FLAGS = {"py_O": ["-O"], "py_OO": ["-OO"], "py_bb": ["-bb"], "py_dev": ["-X", "dev"], "py_utf8": ["-X", "utf8"], "py_isolated": ["-I"]}
ENVS = {"env_C": dict(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0"), "env_tz": dict(TZ="Asia/Tokyo"), "env_home": dict(HOME="/nonexistent"), "env_malloc": dict(PYTHONMALLOC="debug")}
EXCLUSIVE = [("np_raise", "np_call"), ("np_print", "np_legacy"), ("gc_off", "gc_hard"), ("stdout_none", "stdout_closed"), ("profile", "trace"), ("py_O", "py_OO")]
RULE = ("interpreters of their own with random combinations of switches, environment, process-wide settings and places of the call, running random features (seeded sampling, exact computations, refusals, verbose calls); every "
        "result compared with that of an interpreter with ordinary settings and another hash seed; settings compared around every call; output, warnings, files and processes watched; distinct = combination and sequence")
REQUIRED = (["imported", "left_alone", "silent", "no_warnings", "touched_nothing", "compared", "sample", "quiet", "feature", "refusal", "verbose", "deprecated", "big", "sweep", "with_qiskit", "in_main"] + ["set_" + s for s in SETTINGS] + PLACES
            + ["flag_" + f for f in FLAGS] + ["flag_" + e for e in ENVS])
ASSUMES = ["third-party packages are loaded beforehand: what they do on loading is theirs", "results are compared to 1e-7"]
CHILD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "settings_child.py")


def plan(tier):
    return [("settings", 40 * (1 if tier == "quick" else 10))]


def start(job, flags, env, seed):
    d = tempfile.mkdtemp(prefix="u04-")
    e = dict(os.environ, PYTHONHASHSEED=str(seed), **env)
    one = ["OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"]
    for k in one:
        e.pop(k, None)
    e[one[seed % 2]] = "1"
    e.pop("PYTHONPATH", None)
    p = subprocess.Popen([sys.executable, "-B", *flags, CHILD], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=d, env=e)
    return p, job, d


def finish(t, started):
    p, job, d = started
    try:
        out, err = p.communicate(json.dumps(job), timeout=400)
    finally:
        p.kill()
        left = os.listdir(d)
        shutil.rmtree(d, ignore_errors=True)
    if p.returncode or not out.strip():
        t.fail("the interpreter ended without an answer", job=job, output=out[-500:], errors=err[-1500:])
    r = json.loads(out.strip().splitlines()[-1])
    if r["broken"]:
        raise RuntimeError(r["broken"])
    t.check(not left, "files were left in the working directory", files=left, job=job)
    for k, v in r["events"].items():
        t.ev(k, v)
    return r


NUMBER = re.compile(r"-?\d+\.?\d*(?:e[+-]?\d+)?")


def same(a, b):
    if isinstance(a, str) and isinstance(b, str) and a != b:
        # numpy.set_printoptions(legacy="1.13") shortens the text of NumPy's floats.
        return NUMBER.sub("#", a) == NUMBER.sub("#", b) and same([float(x) for x in NUMBER.findall(a)], [float(x) for x in NUMBER.findall(b)])
    if isinstance(a, float) and isinstance(b, float):
        return math.isclose(a, b, rel_tol=1e-7, abs_tol=1e-7)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and a == b


def case(t, kind):
    rng = t.rng
    seed = rng.getrandbits(31)
    steps = rng.choice([6, 12, 20])
    qiskit = rng.random() < .15
    plain = dict(repo=core.REPO, seed=seed, steps=steps, settings=[], late=[], qiskit=qiskit)
    jobs = [start(plain, [], {}, rng.randrange(1, 10 ** 6))]
    combos = []
    for v in range(2):
        # Every setting occurs: one by turns, others at random.
        everything = SETTINGS + PLACES + list(FLAGS) + list(ENVS)
        pick = {everything[(2 * t.idx + v) % len(everything)]} | {s for s in everything if rng.random() < rng.choice([0, .1, .35])}
        if qiskit:      # Qiskit itself asks for the working directory
            pick.discard("cwd_gone")
        for pair in EXCLUSIVE:
            if pick >= set(pair):
                pick.discard(rng.choice(pair))
        combo = sorted(pick)
        flags = [x for s in combo if s in FLAGS for x in FLAGS[s]]
        env = {k: x for s in combo if s in ENVS for k, x in ENVS[s].items()}
        for s in combo:
            if s in FLAGS or s in ENVS:
                t.ev("flag_" + s)
        late = [s for s in combo if rng.random() < .4]
        combos.append(combo)
        jobs.append(start(dict(plain, settings=combo, late=late), flags, env, rng.randrange(1, 10 ** 6)))
    rs, failure = [], None
    for j in jobs:
        try:
            rs.append(finish(t, j))
        except core.Violation as e:
            failure = failure or e
    if failure:
        raise failure
    base = rs[0]
    t.check(base["error"] is None, "under ordinary settings", complaint=base["error"], steps=base["log"])
    for combo, r in zip(combos, rs[1:]):
        t.check(r["error"] is None, "the interpreter's or the process's settings matter", settings=combo, complaint=r["error"], steps=r["log"][-6:])
        t.check(r["log"] == base["log"], "the workload differs", settings=combo, a=r["log"], b=base["log"])
        for name, a, b in zip(r["log"], r["out"], base["out"]):
            t.check(same(a, b), "a result depends on the settings of the interpreter or the process, or on its hash seed", step=name, settings=combo, got=a, ordinary=b)
            t.ev("compared")
        t.key(tuple(combo), tuple(r["log"]))
        t.sample = f"{combo}: {' ; '.join(r['log'][:8])}"
