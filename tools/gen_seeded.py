#!/usr/bin/env python3
"""Development helper: rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import collections
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# missed by the checks as they were when the bug was planted; caught after they were strengthened
MISSED = """v02-sv-sampler-memo v04-same-sampler-cached v04-objective-memo w02-stale-ising w02-target-ignored w03-fixed-field w03-long-range w04-dbms-offset
w04-add-inplace w05-last-digit w05-matrix-digit b01-falsy-ctx b01-resolve-skip b02-pair-order b03-swap-order b04-merge-counts a01-rmul-order a01-sub-zero
a03-int16-indices a06-hash-n c06-rare-outcome c08-phase-threshold c09-partial-iadd b01-preprocess-ignored c07-one-draw b05-measure-one-draw
b05-reset-one-draw b06-alias-unregister""".split()
MISSED += open(os.path.join(V, "tools", "missed.txt")).read().split() if os.path.exists(os.path.join(V, "tools", "missed.txt")) else []
d = collections.defaultdict(list)
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = f.split("/")[-2]
    d[json.load(open(f))["property"]].append(i + ("*" if i in MISSED else ""))
rows = "\n".join(f"* {k}: {', '.join(v)}" for k, v in sorted(d.items()))
path = V + "/DESIGN.md"
s = open(path).read()
a, b = "<!-- seeded -->\n", "<!-- /seeded -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(path, "w").write(s[:i] + rows + "\n" + s[j:])
