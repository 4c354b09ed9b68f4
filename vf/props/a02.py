"""A02: simplify() is canonical, == means the same operator."""
import numpy as np
from blueqat.pauli import Expr, I, Term, X, Y, Z

from .. import paulis as P

RULE = ("random operators, terms and expressions with dyadic coefficients, rewritten into other forms of the same operator (terms split, factors anticommuted, squares inserted, X = -iYZ, cancelling terms) and perturbed "
        "by tiny dyadic amounts or in one letter or qubit; simplify() and == are compared with an independent canonical form; distinct = pair of forms")
REQUIRED = ["many_terms", "long_products", "simplified_expr", "simplified_term", "canonical_pairs", "equal_pairs", "unequal_pairs", "cross_type", "perturbed", "zero_operators", "not_equal", "foreign"]
ASSUMES = ["the independent canonical form in vf/paulis.py"]
PN = 4


def plan(tier):
    k = 4 if tier == "quick" else 30
    return [("simp", 900 * k), ("eq", 900 * k), ("cross", 500 * k), ("small", 40 * k), ("large", 25 * k)]


def is_pauli(x):
    return hasattr(x, "op") and not isinstance(x, (Term, Expr))


def judge_simplify(t, x):
    before = repr(x)
    s = x.simplify()
    t.check(repr(x) == before, "simplify() changed its operand", before=before, after=repr(x))
    t.check(type(s) is type(x), "simplify() returns another type", operand=before, got=repr(s))
    terms = s.terms if isinstance(s, Expr) else (s,)
    t.check(P.close_canon(P.canonical(x), P.canonical(s), 1e-12), "simplify() changed the operator", operand=before, got=repr(s))
    seen = []
    for m in terms:
        qs = [p.n for p in m.ops]
        t.check(all(p.op in "XYZ" for p in m.ops) and qs == sorted(set(qs)), "a simplified term does not have each qubit once, in order", operand=before, got=repr(s))
        seen.append(tuple((p.op, p.n) for p in m.ops))
        if isinstance(s, Expr):
            t.check(m.coeff != 0, "a simplified expression has a zero term", operand=before, got=repr(s))
    t.check(len(set(seen)) == len(seen), "a simplified expression has the same product twice", operand=before, got=repr(s))
    again = s.simplify()
    t.check(tuple(again) == tuple(s), "simplify() is not idempotent", operand=before, once=repr(s), twice=repr(again))
    t.ev("simplified_expr" if isinstance(s, Expr) else "simplified_term")
    return s


def judge_eq(t, a, b):
    want = P.exact_same(a, b)
    sa, sb = repr(a), repr(b)
    info = dict(a=sa, b=sb, types=(type(a).__name__, type(b).__name__))
    for x, y, how in ((a, b, "a, b"), (b, a, "b, a")):
        r = x == y
        t.check(r is True or r is False or isinstance(r, np.bool_), "== is no truth value", order=how, got=repr(r), **info)
        t.check(bool(r) == want, f"== is {bool(r)} for {'equal' if want else 'different'} operators", order=how, **info)
        t.check(bool(x != y) == (not want), "!= is not the negation of ==", order=how, **info)
        t.ev("not_equal")
    t.check((a == a) and not (a != a) and (b == b), "== is not reflexive", **info)
    t.check(repr(a) == sa and repr(b) == sb, "== changed an operand", **info)
    t.ev("equal_pairs" if want else "unequal_pairs")
    if type(a) is not type(b):
        t.ev("cross_type")
    if not P.canonical(a):
        t.ev("zero_operators")


def perturb(rng, x):
    """An Expr which denotes a slightly different operator."""
    ts = [(complex(c), list(o)) for c, o in P.terms_of(x)]
    r = rng.random()
    if r < .5 or not ts:
        e = rng.choice([2.0 ** -40, -2.0 ** -45, 1j * 2.0 ** -42, 2.0 ** -30, .5, 1j])
        if ts and rng.random() < .7:
            i = rng.randrange(len(ts))
            ts[i] = (ts[i][0] + e, ts[i][1])
        else:
            ts.append((e, [(rng.choice("XYZ"), rng.randrange(PN)) for _ in range(rng.randint(0, 2))]))
    else:
        i = rng.randrange(len(ts))
        c, o = ts[i]
        if o and r < .8:
            j = rng.randrange(len(o))
            ch, q = o[j]
            o = o[:]
            o[j] = (rng.choice([z for z in "XYZ" if z != ch]), q) if rng.random() < .5 else (ch, q + 1)
            ts[i] = (c, o)
        elif r < .9:
            ts[i] = (-c, o)
        else:
            ts[i] = (c.conjugate(), o)
    return P.rewrite(rng, Expr(tuple(Term(tuple(P.CTOR[a][q] for a, q in o), c) for c, o in ts)))


def dyadic(rng):
    r = rng.random()
    if r < .15:
        return P.gen_pauli(rng, PN)
    if r < .5:
        return P.gen_term(rng, PN, dyadic=True)
    return P.gen_expr(rng, PN, dyadic=True)


def case(t, kind):
    rng = t.rng
    if kind == "large":
        n = rng.choice([3, 8, 15, 40, 70])
        x = P.big_expr(rng, n, rng.randint(10, 80)) if rng.random() < .7 else P.big_expr(rng, n, rng.randint(1, 4), length=rng.randint(15, 60))
        y = P.rewrite(rng, x)
        s, u = judge_simplify(t, x), judge_simplify(t, y)
        t.check(s.terms == u.terms and [tuple(m.ops) for m in s.terms] == [tuple(m.ops) for m in u.terms], "simplify() gives different terms for the same operator", a=repr(x)[:1500], b=repr(y)[:1500])
        want = P.canonical(x)
        t.check({tuple((p.n, p.op) for p in m.ops): m.coeff for m in s.terms} == want, "simplify() changed a coefficient or lost a term", operand=repr(x)[:2000], got=repr(s)[:2000])
        judge_eq(t, x, y)
        z = P.Expr(tuple(y.terms) + (Term((X[n + 9],), rng.choice([2.0 ** -80, -2.0 ** -60, 1.0])),))
        judge_eq(t, x, z)
        judge_eq(t, s, rng.choice([y, z]))
        ts = list(x.terms)
        rng.shuffle(ts)
        judge_eq(t, x, Expr(tuple(ts)))
        t.ev("many_terms")
        t.key("large", repr(x))
        t.sample = f"{len(x.terms)} terms on {n} qubits"
        return
    if kind == "simp":
        d = rng.random() < .5
        if rng.random() < .25:       # long products on one or two qubits
            q = [0] * 3 + [rng.randrange(PN)]
            x = Term(tuple(rng.choice([X, Y, Z])[rng.choice(q)] for _ in range(rng.randint(5, 14))), rng.choice(P.DYADIC))
            if rng.random() < .4:
                x = x + P.gen_term(rng, 2, 3, True)
            judge_simplify(t, x)
            t.ev("long_products")
            t.key("long", repr(x))
        x = P.gen_term(rng, PN, rng.randint(0, 7), d) if rng.random() < .4 else P.gen_expr(rng, PN, rng.randint(0, 9), d)
        judge_simplify(t, x)
        t.key("simp", repr(x))
        t.sample = repr(x)
        if d or isinstance(x, Term):
            y = P.rewrite(rng, x)
            if d:
                s, u = judge_simplify(t, x.to_expr()), judge_simplify(t, y)
                t.check(s.terms == u.terms and [tuple(m.ops) for m in s.terms] == [tuple(m.ops) for m in u.terms], "simplify() gives different terms for the same operator", a=repr(x), b=repr(y), sa=repr(s), sb=repr(u))
                t.ev("canonical_pairs")
        return
    if kind == "small":
        # every pair among short terms, products of two operators included
        base = [I, X[0], Y[0], Z[1], X[1], I.to_term(), X[0].to_term(), -X[0], 1j * X[0], Y[0] * Z[0], Z[0] * Y[0], X[0] * X[1], X[1] * X[0], Term((X[0], X[0]), 1.0), Term((Y[0], Y[0], X[0]), 1.0), Term((), 0.0),
                Term((X[0],), 0.0), Term((X[1],), 0), 0.5 * I, Expr.zero(), Expr((Term((X[0],), 1.0), Term((X[0],), -1.0))), Expr((X[0].to_term(),)), Expr((Term((), 1.0),)), X[0] + Z[1], Z[1] + X[0], X[0] + X[0], 2 * X[0],
                Expr((Term((Y[0], Z[0]), -1j),)), Z[1] - Z[1] + X[0], Expr((Term((X[0],), 0.5), Term((Z[1],), 0.0), Term((X[0],), .5)))]
        for _ in range(4):
            base.append(dyadic(rng))
        for a in base:
            for b in base:
                judge_eq(t, a, b)
            for f in (None, "X[0]", object(), 0, 1, 1.0, [], np.float64(0.5)):
                t.check(not (a == f) and (a != f) and not (f == a) and (f != a), "equal to something that is no Pauli operator", a=repr(a), other=repr(f))
                t.ev("foreign")
        t.key("small", t.idx)
        t.sample = "all pairs of 30 forms of short operators"
        return
    x = dyadic(rng)
    if kind == "cross":
        y = rng.choice([lambda: P.gen_pauli(rng, 2), lambda: P.gen_term(rng, 2, rng.randint(0, 2), True), lambda: P.gen_expr(rng, 2, rng.randint(0, 2), True)])()
        x = P.gen_term(rng, 2, rng.randint(0, 2), True) if rng.random() < .5 else P.gen_pauli(rng, 2)
        judge_eq(t, x, y)
        e = P.rewrite(rng, x)
        judge_eq(t, x, e)
        ts = P.terms_of(e)
        if len(ts) == 1:
            judge_eq(t, x, e.terms[0])
        if not isinstance(x, Expr):
            judge_eq(t, x, x.to_term())
            judge_eq(t, x, x.to_expr())
            judge_eq(t, x.to_term(), x.to_expr())
        t.key("cross", repr(x), repr(y))
        t.sample = f"{x!r} == {y!r}"
        return
    y, z = P.rewrite(rng, x), perturb(rng, x)
    judge_eq(t, x, y)
    judge_eq(t, x, z)
    judge_eq(t, y, z)
    t.ev("perturbed")
    t.key("eq", repr(x), repr(y))
    t.sample = f"{x!r} == {y!r}"
