"""Independent reference semantics: textbook matrices, a dense simulator and a branch simulator.

State index bit k is qubit k.  Nothing here imports blueqat.
"""
import cmath
import math

import numpy as np

S2 = 1 / math.sqrt(2)


def _m(*rows):
    return np.array(rows, dtype=complex)


I2 = np.eye(2, dtype=complex)
X = _m([0, 1], [1, 0])
Y = _m([0, -1j], [1j, 0])
Z = _m([1, 0], [0, -1])
H = _m([S2, S2], [S2, -S2])


def phase(t):
    return _m([1, 0], [0, cmath.exp(1j * t)])


def rx(t):
    c, s = math.cos(t / 2), math.sin(t / 2)
    return _m([c, -1j * s], [-1j * s, c])


def ry(t):
    c, s = math.cos(t / 2), math.sin(t / 2)
    return _m([c, -s], [s, c])


def rz(t):
    return _m([cmath.exp(-0.5j * t), 0], [0, cmath.exp(0.5j * t)])


def u3(t, p, l):
    return rz(p) @ ry(t) @ rz(l)


def u2(p, l):
    return u3(math.pi / 2, p, l)


def ctrl(u):
    """Controlled u on (control, target): bit 0 of the matrix index is the control, bit 1 the target."""
    m = np.eye(4, dtype=complex)
    m[np.ix_([1, 3], [1, 3])] = u
    return m


def two(a, b):
    """Kronecker product with a on the first listed qubit (bit 0)."""
    return np.kron(b, a)


def expm_pp(p, t):
    """exp(-i t/2 p(x)p)"""
    pp = two(p, p)
    return math.cos(t / 2) * np.eye(4) - 1j * math.sin(t / 2) * pp


SWAP = _m([1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1])


def _ccx():
    m = np.eye(8, dtype=complex)
    m[[3, 7]] = m[[7, 3]]
    return m


def _cswap():
    # bit0 control, bits 1,2 swapped: 1+2=3 <-> 1+4=5
    m = np.eye(8, dtype=complex)
    m[[3, 5]] = m[[5, 3]]
    return m


# name -> (number of qubits, number of parameters, matrix function)
GATES = {
    "i": (1, 0, lambda: I2), "x": (1, 0, lambda: X), "y": (1, 0, lambda: Y), "z": (1, 0, lambda: Z), "h": (1, 0, lambda: H),
    "t": (1, 0, lambda: phase(math.pi / 4)), "tdg": (1, 0, lambda: phase(-math.pi / 4)),
    "s": (1, 0, lambda: phase(math.pi / 2)), "sdg": (1, 0, lambda: phase(-math.pi / 2)),
    "rx": (1, 1, rx), "ry": (1, 1, ry), "rz": (1, 1, rz), "phase": (1, 1, phase),
    "u1": (1, 1, rz), "u2": (1, 2, u2), "u3": (1, 3, u3),
    "cx": (2, 0, lambda: ctrl(X)), "cy": (2, 0, lambda: ctrl(Y)), "cz": (2, 0, lambda: ctrl(Z)), "ch": (2, 0, lambda: ctrl(H)),
    "crx": (2, 1, lambda t: ctrl(rx(t))), "cry": (2, 1, lambda t: ctrl(ry(t))), "crz": (2, 1, lambda t: ctrl(rz(t))),
    "cphase": (2, 1, lambda t: ctrl(phase(t))),
    "cu1": (2, 1, lambda t: cmath.exp(-0.25j * t) * ctrl(phase(t))),
    "cu2": (2, 2, lambda p, l: ctrl(u2(p, l))), "cu3": (2, 3, lambda t, p, l: ctrl(u3(t, p, l))),
    "swap": (2, 0, lambda: SWAP),
    "rxx": (2, 1, lambda t: expm_pp(X, t)), "ryy": (2, 1, lambda t: expm_pp(Y, t)), "rzz": (2, 1, lambda t: expm_pp(Z, t)),
    "ccx": (3, 0, _ccx), "cswap": (3, 0, _cswap), "ccz": (3, 0, lambda: np.diag([1, 1, 1, 1, 1, 1, 1, -1]).astype(complex)),
}
ALIASES = {"cnot": "cx", "r": "phase", "cr": "cphase", "toffoli": "ccx", "m": "measure"}
NONUNITARY = ("measure", "reset")
PARAM_NAMES = {0: (), 1: ("theta",), 2: ("phi", "lambd"), 3: ("theta", "phi", "lambd")}


def canon(name):
    return ALIASES.get(name, name)


def param_names(name):
    name = canon(name)
    if name in ("u1", "cu1"):
        return ("lambd",)
    return PARAM_NAMES[GATES[name][1]]


def arity(name):
    name = canon(name)
    return 1 if name in NONUNITARY else GATES[name][0]


def nparams(name):
    name = canon(name)
    return 0 if name in NONUNITARY else GATES[name][1]


# ------------------------------------------------------------------ index expressions
def resolve1(t, n):
    """Qubits selected by one index expression; None if it denotes a qubit that does not exist."""
    if isinstance(t, slice):
        return list(range(n)[t])
    i = t.__index__()
    if not -n <= i < n:
        return None
    return [range(n)[i]]


def resolve(name, target, n):
    """List of qubit tuples a gate acts on, in order; None if the selection is invalid."""
    k = arity(name)
    if k == 1:
        out = []
        for t in (target if isinstance(target, tuple) else (target,)):
            r = resolve1(t, n)
            if r is None:
                return None
            out += r
        return [(q,) for q in out]
    if not isinstance(target, tuple) or len(target) != k:
        return None
    rs = [resolve1(t, n) for t in target]
    if any(r is None for r in rs) or len({len(r) for r in rs}) != 1:
        return None
    out = list(zip(*rs))
    if any(len(set(p)) != k for p in out):
        return None
    return out


def max_index(target):
    """Largest qubit index an expression names explicitly (-1 if none)."""
    if isinstance(target, tuple):
        return max([max_index(t) for t in target], default=-1)
    if isinstance(target, slice):
        m = -1
        if target.start is not None:
            m = max(m, target.start.__index__())
        if target.stop is not None:
            m = max(m, target.stop.__index__() - 1)
        return m
    return max(target.__index__(), -1)


def n_after(ops, n0=0):
    n = n0
    for op in ops:
        n = max(n, max_index(op[2]) + 1)
    return n


# ------------------------------------------------------------------ dense simulation
def apply_matrix(state, m, qubits, n):
    """Applies m to the given qubits (bit j of m's index is qubits[j]); state may have trailing columns."""
    k = len(qubits)
    cols = state.shape[1:]
    s = state.reshape((2,) * n + cols)
    axes = [n - 1 - q for q in reversed(qubits)]
    s = np.moveaxis(s, axes, range(k))
    shp = s.shape
    s = m @ s.reshape(2 ** k, -1)
    s = np.moveaxis(s.reshape(shp), range(k), axes)
    return s.reshape((2 ** n,) + cols)


def gate_matrix(name, params):
    return GATES[canon(name)][2](*[float(p) for p in params])


def zero_state(n):
    v = np.zeros(2 ** n, dtype=complex)
    v[0] = 1
    return v


def run(ops, n, state=None):
    """ops: list of (name, params, target), unitary only."""
    v = zero_state(n) if state is None else np.array(state, dtype=complex)
    for op in ops:
        name, params, target = op[:3]
        if canon(name) == "i":
            continue
        m = gate_matrix(name, params)
        for qs in resolve(name, target, n):
            v = apply_matrix(v, m, qs, n)
    return v


def unitary(ops, n):
    return run(ops, n, np.eye(2 ** n, dtype=complex))


class TooMany(Exception):
    """The program has more branches than are enumerated: the case is left out and counted."""


def branches(ops, n, prune=1e-11, state=None, limit=20000):
    """All runs of a circuit with measurement and reset: list of [prob, record tuple, state]."""
    out = [[1.0, (0,) * n, zero_state(n) if state is None else np.array(state, dtype=complex)]]
    idx = np.arange(2 ** n)
    for op in ops:
        name, params, target = op[:3]
        c = canon(name)
        if c == "i":
            continue
        if c in NONUNITARY:
            for (q,) in resolve(name, target, n):
                one = (idx >> q) & 1 == 1
                new = []
                for p, rec, v in out:
                    for bit in (0, 1):
                        w = np.where(one == bool(bit), v, 0)
                        pb = float(np.vdot(w, w).real)
                        if p * pb <= prune:
                            continue
                        w = w / math.sqrt(pb)
                        r = rec
                        if c == "measure":
                            r = rec[:q] + (bit,) + rec[q + 1:]
                        elif bit:
                            w = w[idx ^ (1 << q)]
                        new.append([p * pb, r, w])
                out = new
                if len(out) > limit:
                    raise TooMany()
            continue
        m = gate_matrix(name, params)
        for qs in resolve(name, target, n):
            for b in out:
                b[2] = apply_matrix(b[2], m, qs, n)
    return out


def record_dist(brs):
    d = {}
    for p, rec, _ in brs:
        d[rec] = d.get(rec, 0.0) + p
    return d


def marginal(state, meas):
    """Exact outcome probabilities of the listed qubits, in that order."""
    d = {}
    p = np.abs(state) ** 2
    for i in np.nonzero(p > 0)[0]:
        key = tuple((int(i) >> q) & 1 for q in meas)
        d[key] = d.get(key, 0.0) + float(p[i])
    return d


# ------------------------------------------------------------------ comparisons
def same(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.isfinite(a))) and float(np.max(np.abs(a - b), initial=0.0)) <= tol


def same_up_to_phase(a, b, tol=1e-8):
    a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    if a.shape != b.shape or not np.all(np.isfinite(a)):
        return False
    k = np.unravel_index(np.argmax(np.abs(b)), b.shape)
    if abs(a[k]) < tol:
        return float(np.max(np.abs(a - b), initial=0.0)) <= tol
    ph = b[k] / a[k]
    ph /= abs(ph)
    return float(np.max(np.abs(a * ph - b), initial=0.0)) <= tol


# ------------------------------------------------------------------ Pauli algebra (independent)
PAULI = {"I": I2, "X": X, "Y": Y, "Z": Z}


def pauli_matrix(opn, n):
    """Matrix of a product given as [(letter, qubit), ...] applied left to right as a matrix product."""
    out = np.eye(2 ** n, dtype=complex)
    for ch, q in opn:
        out = out @ embed(PAULI[ch], q, n)
    return out


def embed(m, q, n):
    return np.kron(np.kron(np.eye(2 ** (n - 1 - q)), m), np.eye(2 ** q))


# ------------------------------------------------------------------ statistics
def log_binom_tail_ok(k, n, p, thr=1e-9):
    """False when observing k successes of n with success probability p is less likely than about thr (two-sided).

    Chernoff bound: P(X/n beyond k/n) <= exp(-n KL(k/n || p)); sound (never rejects more often than thr).
    """
    if n == 0:
        return True
    f = k / n
    kl = 0.0
    if f > 0:
        if p <= 0:
            return False
        kl += f * math.log(f / p)
    if f < 1:
        if p >= 1:
            return False
        kl += (1 - f) * math.log((1 - f) / (1 - p))
    return 2 * math.exp(-n * max(kl, 0.0)) >= thr


def dist_ok(counts, dist, total, thr=1e-10):
    """counts: outcome -> count, dist: outcome -> probability.  Returns None or a complaint.

    Support is exact; each outcome and each half-split by a coordinate is tested with a Chernoff bound.
    """
    for k, c in counts.items():
        if c and dist.get(k, 0.0) <= 1e-10:
            return f"impossible outcome {k} seen {c} times"
    for k, p in dist.items():
        if not log_binom_tail_ok(counts.get(k, 0), total, min(max(p, 0.0), 1.0), thr):
            return f"outcome {k}: {counts.get(k, 0)} of {total}, probability {p:.6f}"
    if dist:
        width = len(next(iter(dist)))
        for a in range(width):
            for b in range(a, width):
                p = sum(v for k, v in dist.items() if (k[a] ^ k[b] if a != b else k[a]))
                c = sum(v for k, v in counts.items() if (k[a] ^ k[b] if a != b else k[a]))
                if not log_binom_tail_ok(c, total, min(max(p, 0.0), 1.0), thr):
                    return f"parity of positions {a},{b}: {c} of {total}, probability {p:.6f}"
    return None
