#!/opt/venv/bin/python
"""replay.py <replay.json>: runs the recorded case again and prints what its monitors saw."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ.update(PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib
import json
from vf import core

r = json.load(open(sys.argv[1]))
core.load_blueqat()
mod = importlib.import_module("vf.props." + r["property"].lower())
if hasattr(mod, "prepare"):
    mod.prepare()
t, v = core.run_one(mod, r["property"], r["kind"], r["idx"], r["seed"], tuple(core.load_known(r["property"])))
print("sample:", t.sample)
for line in t.trace:
    print("  ", line)
if v:
    print(f"VIOLATION property={r['property']} replay={sys.argv[1]}\n  {v['msg']}")
    for k, x in v["info"].items():
        print(f"    {k}: {x}")
sys.exit(1 if v else 0)
