#!/usr/bin/env python3
"""Development helper: refactor.py FILE.py [IDs]: apply behaviour-preserving rewrites to a scratch copy of /repo; the stable tests and every check must stay quiet."""
import concurrent.futures as cf, importlib.util, json, os, shutil, subprocess, sys
PY = "/opt/venv/bin/python"
spec = importlib.util.spec_from_file_location("r", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
base = "/tmp/refactor/" + os.path.basename(sys.argv[1])[:-3]
shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
repo = base + "/repo"
subprocess.run(["cp", "-a", "/repo", repo], check=True)
for f, old, new in m.EDITS:
    s = open(f"{repo}/{f}").read()
    if old is None:  # appended: later definitions override the earlier ones
        open(f"{repo}/{f}", "w").write(s + new); continue
    if s.count(old) < 1:
        print("NO MATCH", f, old[:80].replace("\n", "|")); continue
    open(f"{repo}/{f}", "w").write(s.replace(old, new))
seeds = os.environ.get("SEEDS", "1").split()
env = dict(os.environ, BLUEQAT_REPO=repo, BLUEQAT_VERIF_OUT=base + "/out", BLUEQAT_VERIF_EVIDENCE=base + "/ev", VF_WORKERS="2", PYTHONDONTWRITEBYTECODE="1")
t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=repo, env=dict(env, PYTHONPATH=repo), capture_output=True, text=True)
print(t.stdout.strip().splitlines()[-1][:200])
if t.returncode: print(t.stdout[-1500:]); sys.exit(1)
ids = sys.argv[2:] or [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
def go(a):
    i, s = a
    r = subprocess.run([PY, "check.py", i, "--seed", s, "--tier", "quick"], cwd="/verif", env=env, capture_output=True, text=True)
    return i, s, r.returncode, [l for l in r.stdout.splitlines() if not l.startswith("OK")][:4]
with cf.ThreadPoolExecutor(4) as ex:
    for i, s, rc, out in ex.map(go, [(i, s) for i in ids for s in seeds]):
        if rc or out: print(i, s, "rc", rc, [x[:200] for x in out])
print("done", len(ids))
