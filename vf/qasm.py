"""Independent OpenQASM 2.0 reader: the standard library is given by its own source, expanded to U and CX."""
import ast
import math
import operator
import re

import numpy as np

from . import ref

# qelib1.inc of the OpenQASM 2.0 paper, with the swap family of its first published library
QELIB = """
gate u3(theta,phi,lambda) q { U(theta,phi,lambda) q; }
gate u2(phi,lambda) q { U(pi/2,phi,lambda) q; }
gate u1(lambda) q { U(0,0,lambda) q; }
gate cx c,t { CX c,t; }
gate id a { U(0,0,0) a; }
gate x a { u3(pi,0,pi) a; }
gate y a { u3(pi,pi/2,pi/2) a; }
gate z a { u1(pi) a; }
gate h a { u2(0,pi) a; }
gate s a { u1(pi/2) a; }
gate sdg a { u1(-pi/2) a; }
gate t a { u1(pi/4) a; }
gate tdg a { u1(-pi/4) a; }
gate rx(theta) a { u3(theta,-pi/2,pi/2) a; }
gate ry(theta) a { u3(theta,0,0) a; }
gate rz(phi) a { u1(phi) a; }
gate cz a,b { h b; cx a,b; h b; }
gate cy a,b { sdg b; cx a,b; s b; }
gate swap a,b { cx a,b; cx b,a; cx a,b; }
gate ch a,b { h b; sdg b; cx a,b; h b; t b; cx a,b; t b; h b; s b; x b; s a; }
gate ccx a,b,c { h c; cx b,c; tdg c; cx a,c; t c; cx b,c; tdg c; cx a,c; t b; t c; h c; cx a,b; t a; tdg b; cx a,b; }
gate cswap a,b,c { cx c,b; ccx a,b,c; cx c,b; }
gate crz(lambda) a,b { u1(lambda/2) b; cx a,b; u1(-lambda/2) b; cx a,b; }
gate cu1(lambda) a,b { u1(lambda/2) a; cx a,b; u1(-lambda/2) b; cx a,b; u1(lambda/2) b; }
gate cu3(theta,phi,lambda) c,t { u1((lambda-phi)/2) t; cx c,t; u3(-theta/2,0,-(phi+lambda)/2) t; cx c,t; u3(theta/2,phi,0) t; }
"""
_OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.Pow: operator.pow}


class QasmError(Exception):
    pass


def expr(text, env):
    def ev(e):
        if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
            return e.value
        if isinstance(e, ast.Name) and e.id in env:
            return env[e.id]
        if isinstance(e, ast.BinOp) and type(e.op) in _OPS:
            return _OPS[type(e.op)](ev(e.left), ev(e.right))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
            v = ev(e.operand)
            return -v if isinstance(e.op, ast.USub) else v
        raise QasmError(f"bad expression {text!r}")
    try:
        return ev(ast.parse(text.strip().replace("lambda", "lambda_"), mode="eval").body)
    except SyntaxError:
        raise QasmError(f"bad expression {text!r}")


def split_args(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        depth += (ch == "(") - (ch == ")")
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return [x.strip() for x in out + [cur]] if s.strip() else []


_CALL = re.compile(r"([A-Za-z_]\w*)\s*(\(.*\))?\s*(\S.*)?$", re.S)


def call(stmt):
    m = _CALL.match(stmt.strip())
    if not m:
        raise QasmError(f"bad statement {stmt!r}")
    ps = m.group(2)
    return m.group(1), split_args(ps[1:-1]) if ps else [], split_args(m.group(3) or "")


def _lib():
    d = {}
    for m in re.finditer(r"gate (\w+)\s*(?:\(([^)]*)\))?\s*([\w,]+)\s*\{(.*?)\}", QELIB):
        name, ps, qs, body = m.groups()
        d[name] = ([p.replace("lambda", "lambda_") for p in split_args(ps or "")], split_args(qs), [call(s) for s in body.split(";") if s.strip()])
    return d


LIB = _lib()
U = ref.u3
CX = ref.ctrl(ref.X)


def expand(name, params, qubits, out):
    """Appends (matrix, qubits) of the gate to out."""
    if name == "U":
        if len(params) != 3 or len(qubits) != 1:
            raise QasmError("bad U")
        out.append((U(*params), qubits))
        return
    if name == "CX":
        out.append((CX, qubits))
        return
    if name == "cu2":                       # not in the library; the emitted text is kept for compatibility
        if len(params) != 2 or len(qubits) != 2:
            raise QasmError("bad cu2")
        out.append((ref.ctrl(ref.u2(*params)), qubits))
        return
    if name not in LIB:
        raise QasmError(f"gate {name} is not in the standard library")
    ps, qs, body = LIB[name]
    if len(ps) != len(params) or len(qs) != len(qubits):
        raise QasmError(f"{name} with {len(params)} parameters on {len(qubits)} qubits")
    env = dict(zip(ps, params), pi=math.pi)
    at = dict(zip(qs, qubits))
    for n, p, q in body:
        expand(n, [expr(x, env) for x in p], tuple(at[x] for x in q), out)


def statements(text):
    text = re.sub(r"//[^\n]*", "", text)
    parts = text.split(";")
    if parts[-1].strip():
        raise QasmError(f"text after the last semicolon: {parts[-1]!r}")
    return [" ".join(p.split()) for p in parts[:-1]]


def parse(text):
    """(number of qubits, number of bits, [("u", matrix, qubits) | ("measure", q, c) | ("reset", q)], gate names)."""
    st = statements(text)
    if len(st) < 4 or st[0] != "OPENQASM 2.0" or st[1] != 'include "qelib1.inc"':
        raise QasmError(f"bad header {st[:4]}")
    nq = nc = None
    prog, names = [], []

    def idx(s, reg, size):
        m = re.fullmatch(reg + r"\s*\[\s*(\d+)\s*\]", s)
        if not m or size is None or int(m.group(1)) >= size:
            raise QasmError(f"bad operand {s!r}")
        return int(m.group(1))
    for s in st[2:]:
        m = re.fullmatch(r"(qreg|creg) (\w+)\s*\[(\d+)\]", s)
        if m:
            if prog or m.group(2) != ("q" if m.group(1) == "qreg" else "c"):
                raise QasmError(f"unexpected declaration {s!r}")
            if m.group(1) == "qreg":
                nq = int(m.group(3))
            else:
                nc = int(m.group(3))
            continue
        m = re.fullmatch(r"measure (.+?)\s*->\s*(.+)", s)
        if m:
            if (m.group(1), m.group(2)) == ("q", "c") and nq is not None and nq == nc:      # whole registers
                prog += [("measure", i, i) for i in range(nq)]
            else:
                prog.append(("measure", idx(m.group(1), "q", nq), idx(m.group(2), "c", nc)))
            names.append("measure")
            continue
        name, ps, qs = call(s)
        names.append(name)
        if name == "barrier":
            continue
        if qs == ["q"] and nq is not None and (name == "reset" or len(LIB.get(name, ((), ()))[1]) == 1):       # broadcast
            if name == "reset":
                prog += [("reset", i) for i in range(nq)]
            else:
                out = []
                for i in range(nq):
                    expand(name, [float(expr(p, dict(pi=math.pi))) for p in ps], (i,), out)
                prog += [("u", m, q) for m, q in out]
            continue
        qubits = tuple(idx(x, "q", nq) for x in qs)
        if name == "reset":
            if len(qubits) != 1 or ps:
                raise QasmError("bad reset")
            prog.append(("reset", qubits[0]))
            continue
        if len(set(qubits)) != len(qubits):
            raise QasmError(f"repeated operand in {s!r}")
        out = []
        expand(name, [float(expr(p, dict(pi=math.pi))) for p in ps], qubits, out)
        prog += [("u", m, q) for m, q in out]
    if nq is None or nc is None:
        raise QasmError("registers are not declared")
    return nq, nc, prog, names


def unitary(prog, n):
    v = np.eye(2 ** n, dtype=complex)
    for p in prog:
        v = ref.apply_matrix(v, p[1], p[2], n)
    return v


def densities(prog, n, nc, init=None):
    """{bits: unnormalised density matrix of the runs that end with these bits}."""
    idx = np.arange(2 ** n)
    cur = [((0,) * nc, ref.zero_state(n) if init is None else init)]
    for p in prog:
        if p[0] == "u":
            cur = [(r, ref.apply_matrix(v, p[1], p[2], n)) for r, v in cur]
            continue
        q = p[1]
        new = []
        for r, v in cur:
            for bit in (0, 1):
                w = np.where((idx >> q) & 1 == bit, v, 0)
                if np.vdot(w, w).real < 1e-14:
                    continue
                r2 = r
                if p[0] == "measure":
                    r2 = r[:p[2]] + (bit,) + r[p[2] + 1:]
                elif bit:
                    w = w[idx ^ (1 << q)]
                new.append((r2, w))
        cur = new
    out = {}
    for r, v in cur:
        out[r] = out.get(r, 0) + np.outer(v, v.conj())
    return out


def same_densities(a, b, tol=1e-8):
    for k in set(a) | set(b):
        x, y = a.get(k, 0), b.get(k, 0)
        if np.max(np.abs(x - y)) > tol:
            return False
    return True
