"""Random QUBO problems and direct evaluation."""
import itertools

import numpy as np


def energy(q, bits):
    """sum_ij Q_ij b_i b_j, nothing else."""
    n = len(bits)
    return float(sum(float(q[i][j]) * bits[i] * bits[j] for i in range(n) for j in range(n)))


def assignments(n):
    return list(itertools.product((0, 1), repeat=n))


def entry(rng, style):
    if style == "int":
        return rng.randint(-5, 5)
    if style == "sparse":
        return rng.choice([0, 0, 0, 1, -1, 2.5])
    if style == "big":
        return rng.choice([1e3, -1e3, 1e-3, 7.0, -.25])
    return rng.uniform(-3, 3)


def gen_qubo(rng, n, style=None, form=None):
    """A QUBO as list of lists or array: upper, lower, symmetric or any triangles."""
    style = style or rng.choice(["int", "int", "float", "sparse", "big"])
    shape = rng.choice(["upper", "upper", "full", "full", "lower", "symmetric", "diag"])
    m = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i == j or shape == "full" or shape == "upper" and i < j or shape == "lower" and i > j:
                m[i][j] = entry(rng, style)
            elif shape == "symmetric" and i < j:
                m[i][j] = m[j][i] = entry(rng, style)
    form = form or rng.choice(["list", "list", "array", "float_array", "tuple"])
    if form == "array":
        return np.array(m)
    if form == "float_array":
        return np.array(m, dtype=float)
    if form == "tuple":
        return tuple(tuple(r) for r in m)
    return m


def frozen(q):
    return [[float(x) for x in r] for r in q]


def scale(q):
    return 1 + sum(abs(float(x)) for r in q for x in r)


def show(q):
    return repr([[round(float(x), 6) for x in r] for r in q])


# ------------------------------------------------------------------ polynomials in bits
def gen_poly(rng, n, degree=2, terms=None, powers=False, constant=True, coeffs=None):
    """[(coefficient, (bit, ...))]: bits of a term are distinct unless `powers`."""
    out = []
    for _ in range(terms if terms is not None else rng.randint(2, 7)):
        k = rng.randint(0 if constant else 1, degree)
        bits = [rng.randrange(n) for _ in range(k)] if powers else rng.sample(range(n), min(k, n))
        c = rng.choice(coeffs or [1, -1, 2, -3, .5, -.25, 4, 7, rng.randint(-9, 9) or 1, round(rng.uniform(-3, 3), 3)])
        out.append((c, tuple(bits)))
    return out


def value(poly, bits):
    v = 0.0
    for c, t in poly:
        p = float(c)
        for i in t:
            p *= bits[i]
        v += p
    return v


def reduced_top(poly):
    """The largest bit that is left after squares are replaced by the bit (-1 if none)."""
    red = {}
    for c, b in poly:
        red[frozenset(b)] = red.get(frozenset(b), 0.0) + float(c)
    return max([i for k, c in red.items() if abs(c) > 1e-9 for i in k], default=-1)


def text(rng, poly, name="q"):
    """The polynomial as algebraic text, in some notation."""
    s = ""
    for k, (c, t) in enumerate(poly):
        fs = []
        i = 0
        t = list(t)
        rng.shuffle(t)
        for b in sorted(set(t), key=t.index):
            e = t.count(b)
            if e == 1:
                fs.append(f"{name}{b}")
            elif rng.random() < .5:
                fs.append(f"{name}{b}**{e}")
            else:
                fs += [f"{name}{b}"] * e
        rng.shuffle(fs)
        sign = "-" if c < 0 else "+"
        a = repr(abs(c))
        if fs and abs(c) == 1 and rng.random() < .6:
            body = "*".join(fs)
        elif rng.random() < .8:
            body = "*".join([a] + fs)
        else:
            body = "*".join(fs + [a])
        s += (f" {sign} " if k else ("-" if sign == "-" else "")) + body
    return s
