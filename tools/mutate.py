#!/usr/bin/env python3
"""Development helper: mutation testing.  mutate.py OUT.jsonl [FILE...] [--workers N] [--sample K] [--seed S]

Small syntactic changes of /repo's sources, one at a time in scratch copies.  A mutant that the repository's tests kill is of
no interest; for the others the quick checks of the properties that concern the file run until one reports a violation.
The mutants which none reports are written with "verdict": "survived": equivalent code, or a gap to look at.
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import warnings
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

warnings.simplefilter("ignore")
PY = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
    "blueqat/pauli.py": "A01 A02 A03 A04 A05 A06 C10 V01 V03 W01",
    "blueqat/gate.py": "C01 C02 C05 C10 B01 C06 C07 B02 B05 B07 B03 B04 C09 B06 U02",
    "blueqat/circuit.py": "C02 C04 C09 B06 C05 C10 C03 C08 C01 B04 B03 U02",
    "blueqat/utils.py": "U01 C01 C08 B04",
    "blueqat/vqe.py": "V04 V03 V01 V02",
    "blueqat/wq.py": "W01 W04 W05 W06 W07 W02 W03",
    "blueqat/backends/_numba_backend_impl.py": "B05 C06",
    "blueqat/backends/backendbase.py": "B01 B03 B02 B04 C09 B06 C04",
    "blueqat/backends/ibmq_backend.py": "B04 V02",
    "blueqat/backends/numpy_backend.py": "C01 C03 C06 C07 C08 C04 B01 V02",
    "blueqat/backends/qasm_output_backend.py": "B03 B04 C09",
    "blueqat/backends/qasm_parser_backend_generator.py": "B04 B03",
    "blueqat/backends/qgate_backend.py": "B07",
    "blueqat/backends/sympy_backend.py": "B02",
    "blueqat/experimental/operations.py": "U02",
    "blueqat/experimental/utils.py": "U02",
}
CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.Pow: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.LShift: ">>", ast.RShift: "<<", ast.BitXor: "&"}
CALLS = {"min": "max", "max": "min", "sin": "cos", "cos": "sin", "any": "all", "all": "any", "triu": "tril", "sorted": "list", "reversed": "list", "copy": None, "tuple": None, "list": None, "abs": None}


def mutants(src):
    """[(start, end, new text, kind)] by offsets into the bytes of the source."""
    tree = ast.parse(src)
    b = src.encode()
    starts = [0]
    for line in b.split(b"\n"):
        starts.append(starts[-1] + len(line) + 1)
    pos = lambda n: (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)
    text = lambda n: b[pos(n)[0]:pos(n)[1]].decode()
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(getattr(n.body[0], "value", None), ast.Constant):
            skip.add(n.body[0])
            skip.add(n.body[0].value)
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.JoinedStr)):
            skip |= set(ast.walk(n)) - {n}
        if isinstance(n, (ast.AnnAssign,)):
            skip |= set(ast.walk(n.annotation))
        if isinstance(n, ast.FunctionDef):
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation:
                    skip |= set(ast.walk(a.annotation))
            if n.returns:
                skip |= set(ast.walk(n.returns))
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), []):
                out.append((*pos(n), f"({text(n.left)} {op} {text(n.comparators[0])})", "cmp"))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            out.append((*pos(n), f"(({text(n.left)}) {BIN[type(n.op)]} ({text(n.right)}))", "bin"))
            if isinstance(n.op, (ast.Sub, ast.Div, ast.MatMult)) :
                out.append((*pos(n), f"(({text(n.right)}) {'-' if isinstance(n.op, ast.Sub) else '/' if isinstance(n.op, ast.Div) else '@'} ({text(n.left)}))", "swap"))
        elif isinstance(n, ast.BoolOp):
            op = "or" if isinstance(n.op, ast.And) else "and"
            out.append((*pos(n), "(" + f" {op} ".join(text(v) for v in n.values) + ")", "bool"))
            for i in range(len(n.values)):
                out.append((*pos(n), "(" + f" {'and' if op == 'or' else 'or'} ".join(text(v) for k, v in enumerate(n.values) if k != i) + ")", "drop"))
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, (ast.Not, ast.USub)):
                out.append((*pos(n), f"({text(n.operand)})", "unary"))
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                out.append((*pos(n), str(not v), "const"))
            elif isinstance(v, (int, float)):
                out.append((*pos(n), repr(v + 1), "const"))
                if v:
                    out.append((*pos(n), repr(type(v)(0)) if v == 1 else repr(v / 2 if isinstance(v, float) else v - 1), "const"))
            elif isinstance(v, complex):
                out.append((*pos(n), repr(-v), "const"))
        elif isinstance(n, (ast.If, ast.IfExp)):
            out.append((*pos(n.test), "True", "cond"))
            out.append((*pos(n.test), "False", "cond"))
        elif isinstance(n, ast.Call):
            name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
            if name in CALLS:
                if CALLS[name] and isinstance(n.func, ast.Attribute):
                    out.append((*pos(n.func), text(n.func.value) + "." + CALLS[name], "call"))
                elif CALLS[name]:
                    out.append((*pos(n.func), CALLS[name], "call"))
                elif isinstance(n.func, ast.Attribute) and not n.args:
                    out.append((*pos(n), text(n.func.value), "nocopy"))
                elif len(n.args) == 1:
                    out.append((*pos(n), text(n.args[0]), "nocall"))
            elif isinstance(n.func, ast.Attribute) and name in ("conj", "conjugate", "simplify", "to_expr", "to_term", "real", "fill", "update") and not n.args:
                out.append((*pos(n), text(n.func.value), "nocall"))
            if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args) and name not in ("isinstance", "hasattr", "getattr"):
                a, c = n.args
                out.append((pos(a)[0], pos(c)[1], f"{text(c)}, {text(a)}", "args"))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            s = n.slice
            if s.lower is not None and s.upper is None and s.step is None:
                out.append((*pos(s), ":", "slice"))
        elif isinstance(n, (ast.Break, ast.Continue)):
            out.append((*pos(n), "continue" if isinstance(n, ast.Break) else "break", "jump"))
        elif isinstance(n, ast.Attribute) and n.attr in ("real", "imag", "T") and isinstance(n.ctx, ast.Load):
            out.append((*pos(n), text(n.value), "attr"))
        if isinstance(n, ast.stmt) and isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Raise)) and n not in skip:
            if isinstance(n, ast.Return) and n.value is not None:
                out.append((*pos(n), "return None", "return"))
            else:
                out.append((*pos(n), "pass", "remove"))
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            out.append((*pos(n), f"{text(n.target)} {BIN[type(n.op)]}= {text(n.value)}", "aug"))
    uniq = {}
    for m in out:
        if b[m[0]:m[1]].decode() != m[2]:
            uniq.setdefault(m[:3], m)
    return list(uniq.values())


def sh(cmd, env, cwd, timeout):
    try:
        p = subprocess.run(cmd, env=dict(os.environ, **env), cwd=cwd, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("files", nargs="*")
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    jobs = []
    for f in a.files or PROPS:
        src = open("/repo/" + f).read()
        ms = mutants(src)
        ok = []
        for m in ms:
            b = src.encode()
            new = (b[:m[0]] + m[2].encode() + b[m[1]:]).decode()
            try:
                compile(new, f, "exec")
            except SyntaxError:
                continue
            ok.append((f, b[:m[0]].count(b"\n") + 1, m, new))
        jobs += ok
        print(f, len(ok))
    random.Random(a.seed).shuffle(jobs)
    if a.sample:
        jobs = jobs[:a.sample]
    done = set()
    if os.path.exists(a.out):
        done = {tuple(json.loads(l)["key"]) for l in open(a.out)}
    print(len(jobs), "mutants,", len(done), "done")
    if a.list:
        return
    q = Queue()
    for k in range(a.workers):
        d = f"/tmp/mut/w{k}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        q.put(d)
    snap = "/tmp/mut/verif"
    shutil.rmtree(snap, ignore_errors=True)
    subprocess.run(["cp", "-a", VERIF, snap], check=True)
    log = open(a.out, "a")

    def run(job):
        f, line, m, new = job
        key = [f, m[0], m[1], m[2]]
        if tuple(key) in done:
            return
        d = q.get()
        path = f"{d}/repo/{f}"
        old = open(path).read()
        try:
            open(path, "w").write(new)
            env = dict(PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="/opt/vp/plugin:" + d + "/repo", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
            tenv = env
            r = dict(key=key, line=line, kind=m[3], old=old.encode()[m[0]:m[1]].decode()[:120], new=m[2][:120], verdict="survived", rcs={})
            env = dict(PYTHONDONTWRITEBYTECODE="1", BLUEQAT_REPO=d + "/repo", BLUEQAT_VERIF_OUT=d + "/out", BLUEQAT_VERIF_EVIDENCE=d + "/ev", VF_WORKERS="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
            # a part of the workloads, then the tests, then all of the workloads
            for scale in ("0.05", "tests", "0.3"):
                if scale == "tests":
                    rc, o = sh([PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=60", "--disable-warnings", "tests"], tenv, d + "/repo", 200)
                    if rc:
                        r["verdict"] = "tests"
                        break
                    continue
                for p in PROPS[f].split():
                    rc, o = sh([PY, snap + "/check.py", p, "--seed", "1", "--tier", "quick"], dict(env, VF_SCALE=scale), snap, 600)
                    r["rcs"][p] = rc
                    if rc == 1:
                        r["verdict"] = p
                        break
                if r["verdict"] != "survived":
                    break
        finally:
            open(path, "w").write(old)
            q.put(d)
        log.write(json.dumps(r) + "\n")
        log.flush()

    with ThreadPoolExecutor(a.workers) as ex:
        list(ex.map(run, jobs))
    shutil.rmtree("/tmp/mut", ignore_errors=True)


main()
