"""Generators of circuits (as data) and builders of the corresponding blueqat objects."""
import math

import numpy as np

from . import ref

ONE = ["i", "x", "y", "z", "h", "t", "tdg", "s", "sdg", "rx", "ry", "rz", "phase", "r", "u1", "u2", "u3"]
TWO = ["cx", "cnot", "cz", "cy", "ch", "crx", "cry", "crz", "cphase", "cr", "cu1", "cu2", "cu3", "swap", "rxx", "ryy", "rzz"]
THREE = ["ccx", "toffoli", "cswap"]
UNITARY = ONE + TWO + THREE

SPECIAL = [0.0, math.pi, -math.pi, math.pi / 2, -math.pi / 2, math.pi / 4, -math.pi / 4, 2 * math.pi, -2 * math.pi,
           3 * math.pi, 4 * math.pi, 7 * math.pi / 2, math.pi / 3, 2 * math.pi / 3, -5 * math.pi / 6, 1e-9, -1e-7, -0.0]


def angle(rng):
    r = rng.random()
    if r < 0.35:
        return rng.choice(SPECIAL)
    if r < 0.75:
        return rng.uniform(-2 * math.pi, 2 * math.pi)
    if r < 0.85:
        return rng.uniform(-30, 30)
    if r < 0.89:
        return rng.uniform(-1000, 1000)
    if r < 0.92:        # near a special angle, not at it
        return rng.choice(SPECIAL[:15]) + rng.choice([-1, 1]) * 10 ** -rng.uniform(2, 6)
    if r < 0.95:
        return rng.randint(-7, 7)
    return np.float64(rng.uniform(-7, 7))


def gen_int(rng, n, negatives=True):
    i = rng.randrange(n)
    if negatives and rng.random() < 0.2:
        i -= n
    if rng.random() < 0.1:
        return rng.choice([np.int64, np.int32])(i)
    return i


def gen_slice(rng, n):
    def b():
        r = rng.random()
        if r < 0.35:
            return None
        if r < 0.8:
            return rng.randrange(0, n + 1)
        return -rng.randrange(1, n + 2)
    step = rng.choice([None, None, None, 1, 2, 3, -1, -2])
    return slice(b(), b(), step)


def gen_sel(rng, n, slices=True, negatives=True):
    return gen_slice(rng, n) if slices and rng.random() < 0.4 else gen_int(rng, n, negatives)


def chain(rng, n):
    """Control/target slices whose pairs overlap: the order of the pairs matters."""
    d = rng.randint(1, n - 2)
    lo = rng.randint(0, n - d - 2)
    a, b = list(range(lo, n - d)), list(range(lo + d, n))

    def sl(v, rev):
        if rev:
            return slice(v[-1], v[0] - 1 if v[0] else None, -1)
        return slice(v[0] if v[0] or rng.random() < .5 else None, v[-1] + 1 if v[-1] + 1 < n or rng.random() < .5 else None)
    rev = rng.random() < .5
    r = rng.random()
    if r < .2:
        t = (sl(a, rev), sl(b, not rev))
        if not ref.resolve("cx", t, n):
            t = (sl(a, rev), sl(b, rev))
    else:
        t = (sl(a, rev), sl(b, rev))
    return t if rng.random() < .5 else t[::-1]


def gen_target(rng, name, n, rich=True):
    """A target expression for the gate, valid for a register of n qubits, or None."""
    k = ref.arity(name)
    if k > n:
        return None
    if k == 1:
        if not rich or rng.random() < 0.45:
            return gen_int(rng, n, rich)
        r = rng.random()
        if r < 0.5:
            return gen_slice(rng, n)
        if r < 0.53:
            return ()
        return tuple(gen_sel(rng, n) for _ in range(rng.randint(1, 4)))
    if k == 2:
        if not rich or rng.random() < 0.6:
            a, b = rng.sample(range(n), 2)
            if rich and rng.random() < 0.2:
                a -= n
            if rich and rng.random() < 0.2:
                b -= n
            if rich and rng.random() < 0.05:
                a = np.int64(a)
            return (a, b)
        if n >= 3 and rng.random() < 0.4:
            return chain(rng, n)
        for _ in range(12):
            t = (gen_sel(rng, n), gen_sel(rng, n))
            if ref.resolve(name, t, n):
                return t
        # constructed matching slices
        m = rng.randint(1, n // 2) if n >= 2 else 1
        return (slice(0, m), slice(n - m, n)) if rng.random() < 0.5 else (slice(n - m, n), slice(None, m))
    return tuple(rng.sample(range(n), 3))


def gen_params(rng, name):
    return tuple(angle(rng) for _ in range(ref.nparams(name)))


def gen_ops(rng, n, count, names=None, rich=True, nonunitary=0.0):
    """A list of ops valid for their final register, at most n qubits (exactly n when n0=n is used)."""
    names = names or UNITARY
    ops = []
    for _ in range(count):
        if nonunitary and rng.random() < nonunitary:
            name = rng.choice(["measure", "m", "reset"])
        else:
            # two-qubit gates and non-diagonal gates more often: they make the state informative
            name = rng.choice(names)
        if ops and rng.random() < .07:       # the same again, as it is, on other qubits or with other parameters
            name, ps, t = ops[-1] if rng.random() < .7 else rng.choice(ops)
            r = rng.random()
            if r < .3:
                ps = tuple(-x for x in ps)
            elif r < .42 and ps:             # equal hashes, different values
                twin = rng.choice([(-1, -2), (-1.0, -2.0), (-1.0, -2)])
                ops.append((name, (twin[0],) * len(ps), t))
                ps = (twin[1],) * len(ps)
            elif r < .6:
                t = gen_target(rng, name, n, rich) if ref.canon(name) not in ref.NONUNITARY else t
            ops.append((name, ps, t))
            continue
        t = gen_target(rng, name, n, rich)
        if t is None:
            continue
        ops.append((name, gen_params(rng, name), t))
    return ops


def make_valid(ops, n0):
    """Drops ops that are invalid for the final register; returns (ops, final n)."""
    while True:
        n = ref.n_after(ops, n0)
        good = [op for op in ops if ref.resolve(op[0], op[2], n) is not None]
        if len(good) == len(ops):
            return ops, n
        ops = good


def scramble(rng, n):
    """A short prefix that makes a generic entangled state, so that wrong actions are visible."""
    ops = []
    for q in range(n):
        ops.append(("u3", (rng.uniform(0.3, 2.8), rng.uniform(-3, 3), rng.uniform(-3, 3)), q))
    order = list(range(n))
    rng.shuffle(order)
    for a, b in zip(order, order[1:]):
        ops.append(("cx", (), (a, b)))
        ops.append(("ry", (rng.uniform(0.3, 2.8),), b))
    return ops


def program(rng, nmax=6, maxops=25, names=None, rich=True, nonunitary=0.0, nmin=1):
    """(n0, ops, n): a circuit started with n0 qubits whose final register has n."""
    n = rng.randint(nmin, nmax)
    count = rng.randint(1, maxops)
    if 5 <= maxops < 30 and rng.random() < .03:      # now and then a long one
        count = rng.randint(30, rng.choice([50, 130]))
    ops = gen_ops(rng, n, count, names, rich, nonunitary)
    if rng.random() < 0.5 and n <= 6:
        ops = scramble(rng, n) + ops
    n0 = rng.choice([0, 0, n, n, rng.randint(0, n), n + (rng.random() < 0.2)])
    ops, n = make_valid(ops, n0)
    return n0, ops, n


# ------------------------------------------------------------------ building
def apply_op(c, op, style=None):
    """Applies op to a Circuit (or Ops) through the public syntax; returns what the call returns."""
    name, params, target = op[:3]
    g = getattr(c, name)
    if params:
        if style == "kw":
            g = g(**dict(zip(ref.param_names(name), params)))
        else:
            g = g(*params)
    elif style == "call":
        g = g()
    return g[target]


def build(Circuit, n0, ops, rng=None):
    c = Circuit(n0) if n0 or (rng and rng.random() < 0.5) else Circuit()
    for op in ops:
        style = rng.choice([None, None, "kw", "call"]) if rng else None
        c2 = apply_op(c, op, style)
        c = c2
    return c


def show_target(t):
    def one(x):
        if isinstance(x, slice):
            s = ":".join("" if v is None else str(v) for v in ((x.start, x.stop) if x.step is None else (x.start, x.stop, x.step)))
            return s
        return str(int(x))
    if isinstance(t, tuple):
        return "[" + ", ".join(one(x) for x in t) + ("," if len(t) == 1 else "") + "]" if t else "[()]"
    return "[" + one(t) + "]"


def show(n0, ops):
    return f"Circuit({n0})" + "".join("." + name + ("(" + ", ".join(map(repr, map(float, ps))) + ")" if ps else "") + show_target(t)
                                     for name, ps, t in (o[:3] for o in ops))


def relative(ops):
    """Whether an index expression of the program means something else when the register grows."""
    return any(isinstance(x, slice) or x < 0 for o in ops for x in (o[2] if isinstance(o[2], tuple) else (o[2],)))


def structure(ops):
    """Structure of a program without its parameters' exact values."""
    return tuple((ref.canon(o[0]), repr(o[2]), tuple(round(float(p), 1) for p in o[1])) for o in ops)
