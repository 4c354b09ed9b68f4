"""A04: commutator and commutability against the independent product of the terms (and matrices)."""
import itertools
from collections import defaultdict

import numpy as np
from blueqat.pauli import Expr, I, Term, X, Y, Z, commutator, is_commutable

from .. import paulis as P

RULE = ("all pairs of Pauli strings on two qubits (and random pairs on more), random pairs of terms and expressions made to commute or not, every mixture of the three types, functions and methods, custom tolerances on both sides of the "
        "commutator's norm; results compared with ab - ba of dense matrices; distinct = pair")
REQUIRED = ["large_sums", "large_sets", "spread", "different_sizes", "commutators", "commuting", "not_commuting", "symmetric", "mixed_types", "eps", "methods", "all_terms_true", "all_terms_false", "strings", "unsimplified"]
ASSUMES = ["matrices built by vf/paulis.py"]
STR = [s for s in itertools.product("IXYZ", repeat=2)]
PAIRS = list(itertools.product(STR, STR))


def plan(tier):
    k = 5 if tier == "quick" else 30
    return [("strings", len(PAIRS) // 8), ("rand", 500 * k), ("eps", 120 * k), ("all", 300 * k), ("large", 15 * k)]


def judge(t, a, b, eps=None):
    n = max(P.width(a, b), 1)
    ma, mb = P.matrix_of(a, n), P.matrix_of(b, n)
    want = ma @ mb - mb @ ma
    sa, sb = repr(a), repr(b)
    info = dict(a=sa, b=sb, types=(type(a).__name__, type(b).__name__))
    scale = sum(abs(c) for c, _ in P.terms_of(a)) * sum(abs(c) for c, _ in P.terms_of(b))
    rs = [(commutator(a, b), 1), (commutator(b, a), -1)]
    for x, y, s in ((a, b, 1), (b, a, -1)):
        if hasattr(x, "commutator"):
            rs.append((x.commutator(y), s))
            t.ev("methods")
    for r, s in rs:
        t.check(isinstance(r, Expr), "the commutator is no expression", got=repr(r), **info)
        m = P.matrix_of(r, n)
        t.check(float(np.max(np.abs(m - s * want))) <= 1e-11 * max(scale, 1e-300), "the commutator differs from ab - ba", got=repr(r), sign=s, **info)
        t.ev("commutators")
    # squared coefficients of ab - ba in the Pauli basis = |ab - ba|_F^2 / 2^n
    sq = float(np.sum(np.abs(want) ** 2)) / 2 ** n
    noise = (1e-14 * scale) ** 2 * 1e4
    e = 1e-8 if eps is None else eps
    if sq + noise < e * .5:
        expect = True
        t.ev("commuting")
    elif sq - noise > e * 2:
        expect = False
        t.ev("not_commuting")
    else:
        return None
    got = []
    for x, y in ((a, b), (b, a)):
        got.append(is_commutable(x, y) if eps is None else is_commutable(x, y, eps))
        if eps is None and hasattr(x, "is_commutable_with"):
            got.append(x.is_commutable_with(y))
            t.ev("methods")
    t.check(all(g == expect and isinstance(g, (bool, np.bool_)) for g in got), f"is_commutable is not {expect}", got=got, squared_coefficients=sq, eps=e, **info)
    t.ev("symmetric")
    t.check(repr(a) == sa and repr(b) == sb, "an operand was changed", **info)
    if type(a) is not type(b):
        t.ev("mixed_types")
    return expect


def forms(rng, x):
    r = rng.random()
    return x if r < .4 else x.to_expr() if r < .6 else P.rewrite(rng, x) if r < .8 else P.rewrite(rng, x).simplify()


def pair(rng):
    n = rng.choice([1, 2, 3, 4])
    g = lambda: rng.choice([lambda: P.gen_pauli(rng, n), lambda: P.gen_term(rng, n, rng.randint(0, 5), rng.random() < .6), lambda: P.gen_expr(rng, n, rng.randint(0, 4), rng.random() < .6)])()
    a = g()
    r = rng.random()
    if r < .45:
        return a, g()
    if r < .6:       # polynomials of one operator commute
        e = a.to_expr()
        return a, e * e + rng.choice(P.DYADIC) * e + 1
    if r < .8:       # diagonal operators
        z = lambda: Term(tuple(Z[q] for q in range(n) if rng.random() < .5), rng.choice(P.DYADIC))
        return z() + z(), z()
    # even number of anticommuting positions
    k = rng.randint(1, 4)
    s = [rng.choice("XYZ") for _ in range(k)]
    u = [rng.choice("XYZI") for _ in range(k)]
    mk = lambda cs: Term(tuple(P.CTOR[c][q] for q, c in enumerate(cs) if c != "I"), rng.choice(P.DYADIC))
    return mk(s), mk(u)


def large(t, rng):
    """Sums of many terms on many qubits, compared in the Pauli basis."""
    n = rng.choice([4, 8, 15, 40, 70])
    a = P.big_expr(rng, n, rng.randint(8, 25))
    r = rng.random()
    if r < .3:       # diagonal sums commute, but for one term perhaps
        z = lambda k: Expr(tuple(Term(tuple(Z[q] for q in rng.sample(range(n), rng.randint(0, 4))), rng.choice([1.0, -.5, 2.0, 3])) for _ in range(k)))
        a, b = z(rng.randint(9, 25)), z(rng.randint(3, 25))
        if rng.random() < .5:
            b = b + rng.choice([1, .25]) * rng.choice([X, Y])[rng.randrange(n)]
    elif r < .5:
        b = a * 2 + 3
        if rng.random() < .5:
            b = b + rng.choice([X, Y, Z])[rng.randrange(n)]
    else:
        b = rng.choice([lambda: P.big_expr(rng, n, rng.randint(3, 25)), lambda: P.gen_term(rng, n, rng.randint(6, 30), True)])()
    ca, cb = P.canonical(a), P.canonical(b)
    want = P.canon_add(P.canon_mul(ca, cb), P.canon_mul(cb, ca), -1)
    bound = sum(abs(c) for c, _ in P.terms_of(a)) * sum(abs(c) for c, _ in P.terms_of(b))
    for x, y, s in ((a, b, 1), (b, a, -1)):
        got = P.canonical(commutator(x, y))
        t.check(P.canon_dev(got, {k: s * v for k, v in want.items()}) <= 1e-12 * bound, "the commutator differs from ab - ba", a=repr(x)[:1500], b=repr(y)[:1500])
        t.ev("commutators")
    sq = sum(abs(v) ** 2 for v in want.values())
    if bound < 1e7 and not 1e-9 < sq < 1e-7:
        got = [is_commutable(a, b), is_commutable(b, a), a.is_commutable_with(b)]
        t.check(all(bool(g) == (sq < 1e-8) for g in got), f"is_commutable is not {sq < 1e-8}", got=got, squared_coefficients=sq, a=repr(a)[:1500], b=repr(b)[:1500])
    t.ev("large_sums")
    # sets of many terms, all of which commute but for one pair perhaps
    basis = [rng.choice("XYZ") for _ in range(n)]
    ts = [Term(tuple(P.CTOR[basis[q]][q] for q in rng.sample(range(n), rng.randint(0, min(n, 6)))), rng.choice([1.0, -.5, 2.0, 1j])) for _ in range(rng.randint(8, 24))]
    q = rng.randrange(n)
    odd = [x for x in ts if sum(p.n == q for p in x.ops) % 2]
    expect = True
    if rng.random() < .5:
        other = rng.choice([c for c in "XYZ" if c != basis[q]])
        ts.insert(rng.randint(0, len(ts)), Term((P.CTOR[other][q],), 1.0))
        expect = not odd
    got = Expr(tuple(ts)).is_all_terms_commutable()
    t.check(bool(got) == expect, f"is_all_terms_commutable is not {expect}", expr=repr(Expr(tuple(ts)))[:2000])
    t.ev("all_terms_true" if expect else "all_terms_false")
    t.ev("large_sets")
    t.key("large", repr(a), repr(b))
    t.sample = f"{len(ca)} terms on {n} qubits"


def case(t, kind):
    rng = t.rng
    if kind == "large":
        return large(t, rng)
    if kind == "strings":
        for s, u in PAIRS[t.idx * 8:t.idx * 8 + 8]:
            a, b = (Term(tuple(P.CTOR[c][q] for q, c in enumerate(w) if c != "I"), rng.choice([1.0, -1.0, 1j, 2.0])) for w in (s, u))
            if rng.random() < .3 and len(a.ops) == 1:
                a = a.ops[0]
            judge(t, a, b)
            t.ev("strings")
        t.key("strings", t.idx)
        t.sample = "all pairs of two-qubit Pauli strings"
        return
    if kind == "eps":
        # noncommuting pair scaled so that the squared coefficients of its commutator are around the tolerance
        a, b = P.gen_term(rng, 3, rng.randint(1, 3), True), P.gen_term(rng, 3, rng.randint(1, 3), True)
        if rng.random() < .5:
            a = a + P.gen_term(rng, 3, rng.randint(1, 3), True)
        if rng.random() < .4:        # a commutator spread over many terms of like size
            cs = rng.sample("XYZ", 2)
            a, b = Expr.zero(), Expr.zero()
            for q in range(3):
                a, b = a + rng.choice([1, -1, 1j]) * P.CTOR[cs[0]][q], b + rng.choice([1, -1, .5]) * P.CTOR[cs[1]][q]
            if rng.random() < .5:
                b = b * b + b
            t.ev("spread")
        eps = rng.choice([None, 1e-8, 1e-3, 1.0, 1e-12, 100.0, 1e-20])
        m = P.matrix_of(a, 3) @ P.matrix_of(b, 3)
        m = m - P.matrix_of(b, 3) @ P.matrix_of(a, 3)
        sq = float(np.sum(np.abs(m) ** 2)) / 8
        if sq > 0:
            f = ((1e-8 if eps is None else eps) * rng.choice([.3, .1, 1e-3, 2.5, 3.0, 3.0, 30.0, 1e4]) / sq) ** .5
            a = a * f
        judge(t, a, b, eps)
        t.ev("eps")
        t.key("eps", repr(a), repr(b), eps)
        t.sample = f"{a!r}, {b!r}, eps={eps}"
        return
    if kind == "all":
        n = rng.choice([2, 3, 4])
        k = rng.randint(0, 5)
        style = rng.random()
        if style < .35:
            ts = [P.gen_term(rng, n, rng.randint(0, 3), True) for _ in range(k)]
        else:     # mutually commuting set, perhaps with one spoiler
            basis = [rng.choice("XYZ") for _ in range(n)]
            ts = [Term(tuple(P.CTOR[basis[q]][q] for q in rng.sample(range(n), n) if rng.random() < .6), rng.choice(P.DYADIC)) for _ in range(k)]
            if style < .45 and n > 2:
                ts = [Term((X[0], X[1]), 1.0), Term((Z[1], Z[0]), -1.0), Term((Y[0], Y[1]), .5), Term((Z[2],), 1.0)]
                rng.shuffle(ts)
            if rng.random() < .5 and ts:
                i = rng.randrange(len(ts) + 1)
                ts.insert(i, Term((rng.choice([X, Y, Z])[rng.randrange(n)],), rng.choice([1.0, -.5, 2.0])))
        if rng.random() < .3:       # coefficients of very different sizes
            ts = [x * rng.choice([1, 1, 1e-5, 1e5, 1e-3, 1e6, 1e-6]) for x in ts]
            t.ev("different_sizes")
        e = Expr(tuple(ts))
        if rng.random() < .5:
            e = P.rewrite(rng, e)
            t.ev("unsimplified")
        ms = [P.matrix_of(x, 4) if P.width(x) <= 4 else P.matrix_of(x, P.width(e)) for x in e.terms]
        expect = True
        for a, b in itertools.combinations(ms, 2):
            if float(np.max(np.abs(a))) * float(np.max(np.abs(b))) * 1e-14 > 1e-5:       # rounding could reach the tolerance
                return
            d = a @ b - b @ a
            sq = float(np.sum(np.abs(d) ** 2)) / d.shape[0]
            if sq > 2e-8:
                expect = False
            elif sq > 5e-9:
                return
        got = e.is_all_terms_commutable()
        t.check(got == expect and isinstance(got, (bool, np.bool_)), f"is_all_terms_commutable is not {expect}", got=got, expr=repr(e))
        t.ev("all_terms_true" if expect else "all_terms_false")
        t.key("all", repr(e))
        t.sample = repr(e)
        return
    a, b = pair(rng)
    if judge(t, a, b) is None:
        return
    t.key("rand", repr(a), repr(b))
    t.sample = f"[{a!r}, {b!r}]"
    a2, b2 = forms(rng, a), forms(rng, b)
    judge(t, a2, b2)
