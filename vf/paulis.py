"""Random Pauli objects and an independent reading of what they denote."""
import math

import numpy as np
from blueqat.pauli import Expr, I, Term, X, Y, Z

from . import ref

PNS = {"X": X, "Y": Y, "Z": Z, "I": I, "Term": Term, "Expr": Expr}
CTOR = {"X": X, "Y": Y, "Z": Z}
DYADIC = [1.0, -1.0, 0.5, -0.5, 2.0, 0.25, -3.0, 1.5, -0.125, 1j, -1j, 0.5j, 1 + 1j, -0.25 + 0.5j, 3, -2, 1]


def gen_coeff(rng, dyadic=False):
    if dyadic or rng.random() < .5:
        return rng.choice(DYADIC)
    r = rng.random()
    if r < .5:
        return rng.uniform(-3, 3)
    if r < .7:
        return complex(rng.uniform(-2, 2), rng.uniform(-2, 2))
    return rng.choice([1e-9, -1e-300, 1e16, np.float64(0.3), np.float64(-1.0), np.complex128(1 - 2j), 1 / 3, np.int64(2), 1e-17j])


def gen_pauli(rng, n, ident=.12):
    if rng.random() < ident:
        return I
    c = rng.choice("XYZ")
    q = rng.randrange(n)
    return CTOR[c][q] if rng.random() < .7 else CTOR[c](q)


def gen_term(rng, n, length=None, dyadic=False, coeff=True):
    """A term, not necessarily simplified (repeated qubits, any order)."""
    k = rng.randint(0, 4) if length is None else length
    ops = []
    for _ in range(k):
        p = gen_pauli(rng, n, 0)
        ops.append(p)
    c = gen_coeff(rng, dyadic) if coeff else 1.0
    if rng.random() < .5:
        return Term(tuple(ops), c)
    t = c * I
    if not isinstance(t, Term):
        t = t.to_term()
    for p in ops:
        t = t * p
    return t


def gen_expr(rng, n, terms=None, dyadic=False):
    k = rng.randint(0, 6) if terms is None else terms
    ts = [gen_term(rng, n, rng.choice([0, 1, 2, 2, 3, 4]), dyadic) for _ in range(k)]
    if rng.random() < .5:
        return Expr(tuple(ts))
    e = Expr.zero()
    for x in ts:
        e = e + x
    return e


def big_expr(rng, n, terms, dyadic=True, length=None):
    """A sum of many terms on many qubits, some of them tiny (on products of their own)."""
    out = []
    for i in range(terms):
        t = gen_term(rng, n, rng.randint(0, 5) if length is None else length, dyadic)
        out.append(Term(t.ops, t.coeff * rng.choice([1, 1, 1, 8, 0.125])) if dyadic else t)
    seen = {k for x in out for k in canonical(x)}
    for _ in range(rng.randint(0, 3)):
        p = Term(tuple(CTOR[rng.choice("XYZ")][n + 4 + j] for j in range(rng.randint(1, 2))), rng.choice([2.0 ** -60, -2.0 ** -70, 1j * 2.0 ** -55, 2.0 ** 40]))
        (k,) = canonical(p)
        if k not in seen:
            seen.add(k)
            out.insert(rng.randint(0, len(out)), p)
    e = Expr(tuple(out))
    return e if rng.random() < .6 else sum(out, Expr.zero())


def canon_mul(a, b):
    """Product of two canonical forms."""
    d = {}
    for ka, ca in a.items():
        for kb, cb in b.items():
            at, c = dict(ka), ca * cb
            for q, ch in kb:
                if q not in at:
                    at[q] = ch
                elif at[q] == ch:
                    del at[q]
                else:
                    f, r = _MUL[at[q], ch]
                    c *= f
                    at[q] = r
            k = tuple(sorted(at.items()))
            d[k] = d.get(k, 0) + c
    return d


def canon_add(a, b, f=1):
    d = dict(a)
    for k, v in b.items():
        d[k] = d.get(k, 0) + f * v
    return d


def canon_dev(a, b):
    return max([abs(a.get(k, 0) - b.get(k, 0)) for k in set(a) | set(b)], default=0)


def terms_of(x):
    """[(coeff, [(letter, qubit)...])] read from the object's public fields only."""
    if isinstance(x, (int, float, complex, np.number)):
        return [(complex(x), [])]
    if isinstance(x, Expr):
        out = []
        for t in x.terms:
            out += terms_of(t)
        return out
    if isinstance(x, Term):
        return [(complex(x.coeff), [(p.op, p.n) for p in x.ops if p.op != "I"])]
    if x.op == "I":
        return [(1 + 0j, [])]
    return [(1 + 0j, [(x.op, x.n)])]


_MUL = {("X", "Y"): (1j, "Z"), ("Y", "Z"): (1j, "X"), ("Z", "X"): (1j, "Y"), ("Y", "X"): (-1j, "Z"), ("Z", "Y"): (-1j, "X"), ("X", "Z"): (-1j, "Y")}


def canonical(x):
    """{((qubit, letter), ...) : coefficient}: the operator in the Pauli basis, zero entries dropped."""
    d = {}
    for c, ops in terms_of(x):
        at = {}
        for ch, q in ops:
            if q not in at:
                at[q] = ch
            elif at[q] == ch:
                del at[q]
            else:
                k, r = _MUL[at[q], ch]
                c *= k
                at[q] = r
        key = tuple(sorted(at.items()))
        d[key] = d.get(key, 0) + c
    return {k: v for k, v in d.items() if v != 0}


def close_canon(a, b, tol=1e-9):
    scale = max([abs(v) for v in list(a.values()) + list(b.values())] + [1.0])
    return all(abs(a.get(k, 0) - b.get(k, 0)) <= tol * scale for k in set(a) | set(b))


def same_op(a, b, tol=1e-12):
    return close_canon(canonical(a), canonical(b), tol)


def matrix_of(x, n):
    m = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for c, ops in terms_of(x):
        m += c * ref.pauli_matrix(ops, n)
    return m


def width(*xs):
    return max([q + 1 for x in xs for _, ops in terms_of(x) for _, q in ops], default=0)


def exact_same(a, b):
    """The same operator, coefficients compared exactly (meaningful for dyadic coefficients)."""
    return canonical(a) == canonical(b)


def rewrite(rng, x, dyadic=True):
    """Another Expr denoting the same operator: split, shuffled, reordered, padded with squares, products of two on a qubit."""
    terms = []
    for c, ops in terms_of(x):
        parts = [c]
        if rng.random() < .4:
            k = rng.choice([.5, 2.0, -1.0, .25])
            parts = [c * k, c - c * k]
        for p in parts:
            o = list(ops)
            p = complex(p)
            for _ in range(rng.randint(0, 3)):
                r = rng.random()
                if r < .35 and len(o) > 1:           # swap neighbours
                    i = rng.randrange(len(o) - 1)
                    (a, q), (b, s) = o[i], o[i + 1]
                    o[i], o[i + 1] = o[i + 1], o[i]
                    if q == s and a != b:
                        p = -p
                elif r < .65:                        # insert P*P
                    i = rng.randint(0, len(o))
                    e = (rng.choice("XYZ"), rng.randrange(4))
                    o[i:i] = [e, e]
                elif o:                              # X -> -i Y Z  (and cyclic)
                    i = rng.randrange(len(o))
                    a, q = o[i]
                    b, d = {"X": "YZ", "Y": "ZX", "Z": "XY"}[a]
                    o[i:i + 1] = [(b, q), (d, q)]
                    p = p * -1j
            if p.imag == 0 and rng.random() < .7:
                p = p.real
            terms.append(Term(tuple(CTOR[a][q] for a, q in o), p))
    if rng.random() < .3:
        terms.append(Term((CTOR[rng.choice("XYZ")][rng.randrange(3)],), 0.0))
    if rng.random() < .3:
        t = gen_term(rng, 3, dyadic=True)
        terms += [t, Term(t.ops, -t.coeff)]
    rng.shuffle(terms)
    return Expr(tuple(terms))
