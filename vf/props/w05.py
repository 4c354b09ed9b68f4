"""W05: symbolic conversions preserve the value at every assignment of bits."""
import itertools

import numpy as np
import sympy
from blueqat import wq

from .. import qubo as Q

RULE = ("random polynomials of degree two in up to 5 bits in many notations (expanded, products of linear forms, powers, repeated and missing variables, integer, float and rational coefficients): the matrix or the reduced polynomial is "
        "evaluated on all assignments against the polynomial itself; distinct = text")
REQUIRED = ["high_powers", "rationals", "qn_to_qubo", "optm", "add_text", "qubo_to_matrix", "optx", "expand_qubo", "squares", "factored", "missing_variables", "make_qs", "higher_powers", "wide_indices", "many_variables", "assignments"]
ASSUMES = ["sympy's evaluation by substitution of numbers"]


def plan(tier):
    k = 4 if tier == "quick" else 25
    return [("qn", 60 * k), ("optm", 60 * k), ("text", 60 * k), ("optx", 50 * k), ("expand", 50 * k), ("wide", 60 * k), ("qs", 6)]


def expression(t, rng, n, degree=2, linear_only=False):
    """(sympy expression as a user writes it, polynomial as data)."""
    qs = wq.make_qs(n)
    if rng.random() < .4 and degree == 2:
        # products of linear forms
        poly, e = [], sympy.Integer(0)
        for _ in range(rng.randint(1, 2)):
            forms = []
            for _ in range(2):
                f = [(rng.choice([1, -1, 2, .5, -3]), (i,)) for i in rng.sample(range(n), rng.randint(1, n))]
                if rng.random() < .6:
                    f.append((rng.choice([1, -1, 2]), ()))
                forms.append(f)
            if rng.random() < .5:
                forms[1] = forms[0]
            c = rng.choice([1, 1, -2, .5])
            lin = [sum((x * (qs[b[0]] if b else 1) for x, b in f), sympy.Integer(0)) for f in forms]
            e = e + c * (lin[0] ** 2 if forms[0] is forms[1] else lin[0] * lin[1])
            for x, b in forms[0]:
                for y, d in forms[1]:
                    poly.append((c * x * y, b + d))
        t.ev("factored")
        return e, poly
    poly = Q.gen_poly(rng, n, degree, powers=True)
    if degree > 2 and rng.random() < .5:          # high powers of few bits
        poly = [(c, tuple(x for x in b for _ in range(rng.choice([1, 1, 2, 3, 5])))) for c, b in poly[:4]]
        t.ev("high_powers")
    e, exact = sympy.Integer(0), []
    for c, b in poly:
        if rng.random() < .1:
            c = rng.choice([sympy.Rational(5, 2), sympy.Rational(-7, 3), sympy.Rational(1, 3), sympy.Rational(-9, 4)])
            m = c
            for i in b:
                m = m * qs[i]
            exact.append((c, b))
            e = e + m
            t.ev("rationals")
            continue
        exact.append((c, b))
        m = sympy.Rational(1, 4) * int(c * 4) if isinstance(c, float) and c * 4 == int(c * 4) and rng.random() < .3 else c
        for i in b:
            m = m * qs[i]
        e = e + m
    return e, exact


def judge_matrix(t, name, m, poly, size, s):
    m = np.asarray(m, dtype=float)
    t.check(m.ndim == 2 and m.shape[0] == m.shape[1] == size, f"{name}: wrong shape", expr=s, got=m.shape, expected=size)
    zero = Q.value(poly, (0,) * 16)
    tol = 1e-9 * (1 + sum(abs(float(c)) for c, _ in poly))
    for b in Q.assignments(size):
        want = Q.value(poly, b + (0,) * 8) - zero
        t.check(abs(Q.energy(m, b) - want) <= tol, f"{name}: the matrix has another energy than the polynomial", expr=s, bits=b, got=Q.energy(m, b), expected=want, matrix=Q.show(m))
        t.ev("assignments")
    t.ev(name)


def judge_expr(t, name, e, poly, n, s):
    tol = 1e-9 * (1 + sum(abs(float(c)) for c, _ in poly))
    e = sympy.sympify(e)
    names = {f"q{i}": i for i in range(n)}
    t.check(all(str(x) in names for x in e.free_symbols), f"{name}: other variables", expr=s, got=str(e))
    f = sympy.lambdify([sympy.Symbol(x) for x in names], e, "math")
    for b in Q.assignments(n):
        got, want = float(f(*b)), Q.value(poly, b)
        t.check(abs(got - want) <= tol, f"{name}: another value than the polynomial", expr=s, bits=b, got=got, expected=want, result=str(e))
        t.ev("assignments")
    t.ev(name)


def wide(t, rng):
    """Few bits with large indices."""
    small = rng.random() < .5
    pool = [0, 1, 2, 9, 10, 11, 12, 20, 21] + ([] if small else [99, 100, 101, 110, 111, 112, 120, 121])
    many = rng.random() < .12
    if many:              # many variables, many terms
        pool = range(rng.choice([16, 24, 40]))
        t.ev("many_variables")
    labels = sorted(rng.sample(pool, rng.randint(11, 16) if many else rng.randint(2, 5)))
    local = Q.gen_poly(rng, len(labels), 2, powers=rng.random() < .4, terms=rng.randint(15, 60) if many else None)
    states = lambda: [tuple(int(i in s) for i in range(len(labels))) for k in (0, 1, 2) for s in itertools.combinations(range(len(labels)), k)] + [tuple(rng.randint(0, 1) for _ in labels) for _ in range(20)] if many else Q.assignments(len(labels))
    local += [(rng.choice([1, -2.5]), (i,)) for i in range(len(labels)) if rng.random() < .5]
    if Q.reduced_top(local) != len(labels) - 1:
        return
    poly = [(c, tuple(labels[i] for i in b)) for c, b in local]
    top = labels[-1] + 1
    txt = Q.text(rng, poly)
    e = sympy.sympify(txt)
    todo = {"qubo_to_matrix": lambda: wq.Opt().qubo_to_matrix(e if rng.random() < .5 else txt), "add_text": lambda: wq.Opt().add(txt).qubo}
    if isinstance(e, sympy.Add):
        todo["qn_to_qubo"] = lambda: wq.qn_to_qubo(e)
    if small or many:
        todo["optm"] = lambda: wq.optm(e, top)
    zero = Q.value(local, (0,) * len(labels))
    tol = 1e-9 * (1 + sum(abs(float(c)) for c, _ in poly))
    for name, f in todo.items():
        m = np.asarray(f(), dtype=float)
        t.check(m.shape == (top, top), f"{name}: wrong shape", expr=txt, got=m.shape, expected=top)
        rest = [i for i in range(top) if i not in labels]
        t.check(not m[rest].any() and not m[:, rest].any(), f"{name}: an entry of a bit that does not occur", expr=txt, entries=np.argwhere(m).tolist())
        for b in states():
            x = np.zeros(top)
            x[labels] = b
            t.check(abs(x @ m @ x - (Q.value(local, b) - zero)) <= tol, f"{name}: the matrix has another energy than the polynomial", expr=txt, bits=dict(zip(labels, b)), got=x @ m @ x, expected=Q.value(local, b) - zero)
            t.ev("assignments")
    r = wq.optx(e) if rng.random() < .5 else wq.Opt().expand_qubo(e)
    f = sympy.lambdify([sympy.Symbol(f"q{i}") for i in labels], r, "math")
    for b in states():
        t.check(abs(float(f(*b)) - Q.value(local, b)) <= tol, "optx or expand_qubo: another value than the polynomial", expr=txt, bits=dict(zip(labels, b)), result=str(r))
    t.ev("wide_indices")
    t.key("wide", txt)
    t.sample = txt


def case(t, kind):
    rng = t.rng
    if kind == "qs":
        for n in (1, 2, 7):
            qs = wq.make_qs(n)
            t.check(isinstance(qs, tuple) and [str(x) for x in qs] == [f"q{i}" for i in range(n)] and all(isinstance(x, sympy.Symbol) for x in qs), "make_qs: wrong symbols", n=n, got=qs)
            for m in (n + 1, n + 3):
                qs = wq.make_qs(n, m)
                t.check(isinstance(qs, tuple) and [str(x) for x in qs] == [f"q{i}" for i in range(n, m)], "make_qs: wrong symbols", n=n, m=m, got=qs)
        t.ev("make_qs")
        return
    if kind == "wide":
        return wide(t, rng)
    n = rng.choice([1, 2, 3, 4, 5])
    if kind == "expand" and rng.random() < .5:
        e, poly = expression(t, rng, n, rng.choice([3, 4]))
        t.ev("higher_powers")
    else:
        e, poly = expression(t, rng, n)
    full = sympy.expand(e)
    used = sorted(int(str(x)[1:]) for x in full.free_symbols)
    if not used:
        return
    top = used[-1] + 1
    if len(used) < top:
        t.ev("missing_variables")
    if any(len(set(b)) < len(b) for _, b in poly):
        t.ev("squares")
    s = str(e)
    t.key(kind, s)
    t.sample = s
    if kind == "qn":
        if not isinstance(e, sympy.Add):
            return
        free = sorted(int(str(x)[1:]) for x in e.free_symbols)
        judge_matrix(t, "qn_to_qubo", wq.qn_to_qubo(e), poly, free[-1] + 1, s)
    elif kind == "optm":
        m = top + rng.choice([0, 0, 1])
        judge_matrix(t, "optm", wq.optm(e, m), poly, m, s)
    elif kind == "text":
        if Q.reduced_top(poly) != top - 1:
            return        # the bits that cancel leave the size open
        txt = s if rng.random() < .5 else Q.text(rng, poly)
        o = wq.Opt()
        o.add(txt)
        judge_matrix(t, "add_text", o.qubo, poly, top, txt)
        f = rng.choice([-1, 2, .5, -3.0])
        judge_matrix(t, "add_text", wq.Opt().add(txt, f).qubo if rng.random() < .5 else wq.Opt().add(txt, M=f).qubo, [(f * float(c), b) for c, b in poly], top, f"{f} * ({txt})")
        judge_matrix(t, "qubo_to_matrix", wq.Opt().qubo_to_matrix(e if rng.random() < .5 else txt), poly, top, txt)
    elif kind == "optx":
        r = wq.optx(e)
        judge_expr(t, "optx", r, poly, n, s)
        p = sympy.Poly(sympy.expand(r), *wq.make_qs(n)) if sympy.sympify(r).free_symbols else None
        t.check(p is None or all(max(m) <= 1 for m in p.monoms()), "optx: a square is left", expr=s, got=str(r))
    else:
        r = wq.Opt().expand_qubo(e if rng.random() < .6 else s)
        judge_expr(t, "expand_qubo", r, poly, n, s)
        p = sympy.Poly(sympy.expand(r), *wq.make_qs(n)) if sympy.sympify(r).free_symbols else None
        t.check(p is None or all(max(m) <= 1 for m in p.monoms()), "expand_qubo: a power of a bit is left", expr=s, got=str(r))
