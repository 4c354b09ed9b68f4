#!/usr/bin/env python3
"""Development helper: plant.py FILE.py [ID...]: try the planted bugs described in FILE.py.

FILE.py defines BUGS: list of dict(id, prop, edits=[(file, old, new)], needs, breaks, demo).  For each: a scratch copy of
/repo gets the edits; the demo must pass without and fail with them; the 255 stable tests must pass; then the property's
quick check runs on the copy.  Bugs that are valid are written to /verif/seeded/<id>/ whether or not they are caught.
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import shutil
import subprocess
import sys

PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = '#!/bin/bash\n# run with cwd = the repository\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")


def one(b, checks=True, seeds=(1,)):
    wid = b["id"]
    base = f"/tmp/plant/{wid}"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    repo = base + "/repo"
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    d = base + "/demo"
    os.makedirs(d)
    open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO_SH)
    for name, src in b.get("files", {}).items():     # name -> file of /verif, its relative imports made absolute
        open(f"{d}/{name}", "w").write(open("/verif/" + src).read().replace("from . import", "import"))
    out = []
    try:
        r = sh(["bash", d + "/demo.sh"], cwd=repo, timeout=300)
        if r.returncode != 0:
            return wid, "INVALID: demo fails on the unchanged tree: " + (r.stderr or r.stdout)[-300:]
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return wid, f"INVALID: {s.count(old)} matches in {f} of {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        r = sh(["bash", d + "/demo.sh"], cwd=repo, timeout=300)
        if r.returncode == 0:
            return wid, "INVALID: demo passes with the change"
        demo_out = (r.stderr or r.stdout).strip().splitlines()[-1:]
        r = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=300", "--disable-warnings", "-o", "junit_family=xunit2",
                f"--junitxml={base}/j.xml", "tests"], cwd=repo, env=dict(PYTHONPATH=f"/opt/vp/plugin:{repo}", PYTHONHASHSEED="0"))
        sh([PY, "/opt/vp/results.py", base + "/o.json", f"junit:{base}/j.xml"])
        o = json.load(open(base + "/o.json"))
        bad = STABLE - set(o["passed"])
        if bad:
            return wid, f"INVALID: existing tests fail: {sorted(bad)[:3]}"
        res = []
        for s in seeds:
            r = sh([PY, "/verif/check.py", b["prop"], "--tier", "quick", "--seed", str(s)],
                   env=dict(BLUEQAT_REPO=repo, BLUEQAT_VERIF_OUT=base + "/out", BLUEQAT_VERIF_EVIDENCE=base + "/ev"))
            hit = r.returncode == 1 and f"VIOLATION property={b['prop']} " in r.stdout
            res.append("caught" if hit else f"MISSED(rc={r.returncode})")
            open(f"/tmp/plant/{wid}.{s}.log", "w").write(r.stdout + r.stderr)
            line = [x for x in r.stdout.splitlines() if x.startswith("  ")][:1]
        out.append(f"{' '.join(res)} {line}"[:170] + f" | demo: {demo_out}"[:80])
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        dst = f"/verif/seeded/{wid}"
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        open(dst + "/patch.diff", "w").write(diff)
        for name in os.listdir(d):
            if name != "__pycache__":
                shutil.copy(f"{d}/{name}", dst)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
        return wid, " ".join(out)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    spec = importlib.util.spec_from_file_location("plants", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    bugs = [b for b in m.BUGS if not sys.argv[2:] or b["id"] in sys.argv[2:]]
    os.environ.setdefault("VF_WORKERS", "3")
    with cf.ThreadPoolExecutor(3) as ex:
        for wid, r in ex.map(one, bugs):
            print(f"{wid:28s} {r}", flush=True)


main()
