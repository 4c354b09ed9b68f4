"""W06: the reduction to two-body form preserves values and penalises wrong auxiliaries."""
import itertools

import sympy
from blueqat import wq

from .. import qubo as Q

RULE = ("random sums of multilinear terms of degree up to 5 in up to 5 bits, under random symbol names (which vary the order in which factors are paired), with shared pairs: degree of the result, value and zero penalty with the auxiliaries "
        "set to their products, penalty at least one for every other assignment of auxiliaries, minima of value plus weighted penalty; distinct = expression")
REQUIRED = ["reduced", "shared_pairs", "high_degree", "penalties", "values", "minima", "no_auxiliary", "many_variables", "nested_auxiliaries"]
ASSUMES = ["sympy's evaluation by substitution of numbers"]


def plan(tier):
    k = 5 if tier == "quick" else 25
    return [("sep", 140 * k)]


def case(t, kind):
    rng = t.rng
    n = rng.choice([2, 3, 4, 4, 5])
    many = rng.random() < .04
    if many:
        n = rng.choice([7, 8, 10])
        t.ev("many_variables")
    names = rng.sample([f"{a}{i}" for a in ("q", "x", "var_", "a", "zz") for i in range(12)], n)
    qs = sympy.symbols(names)
    poly = []
    for _ in range(rng.randint(6, 14) if many else rng.randint(2, 5)):
        k = rng.choice([0, 1, 2, 3, 3, 4, 5] + [6, 7] * many)
        bits = tuple(sorted(rng.sample(range(n), min(k, n))))
        c = rng.choice([1, -1, 2, -3, .5, 4, -2.25])
        if all(bits != b for _, b in poly):
            poly.append((c, bits))
    e = sympy.Integer(0)
    for c, b in poly:
        m = sympy.sympify(c)
        for i in b:
            m = m * qs[i]
        e = e + m
    if type(e) is not sympy.Add:
        return
    aux = sympy.symbols([f"s{i}" for i in range(60)])
    given = aux if rng.random() < .5 else list(aux)
    before = str(e)
    new, cons, mapping = wq.nbody_separation(e, given)
    t.check(str(e) == before, "the expression was modified", before=before, after=str(e))
    new, cons = sympy.expand(new), sympy.expand(cons)
    info = dict(expr=before, new=str(new), constraints=str(cons), mapping=str(mapping))
    used = list(mapping.values())
    t.check(len(set(used)) == len(used) and all(v in aux for v in used), "the mapping's auxiliaries are not distinct given symbols", **info)
    allowed = set(qs) | set(used)
    for x, what in ((new, "problem"), (cons, "penalty")):
        t.check(x.free_symbols <= allowed, f"the {what} has unknown symbols", **info)
        if x.free_symbols:
            t.check(sympy.Poly(x, *sorted(x.free_symbols, key=str)).total_degree() <= 2, f"the {what} has a term of degree above two", **info)
    t.ev("reduced")
    if not mapping:
        t.ev("no_auxiliary")
    if any(len(b) >= 4 for _, b in poly):
        t.ev("high_degree")
    # what every auxiliary stands for
    sym = {str(s): s for s in list(qs) + list(aux)}
    prod = {}

    def factors(s):
        if s in qs:
            return frozenset([s])
        return prod[s]

    todo = dict(mapping)
    while todo:
        ready = [k for k in todo if all(sym[x] in qs or sym[x] in prod for x in k)]
        t.check(bool(ready), "the mapping is circular", **info)
        for k in ready:
            prod[todo.pop(k)] = factors(sym[k[0]]) | factors(sym[k[1]])
    if any(sym[x] in aux for k in mapping for x in k):
        t.ev("nested_auxiliaries")
    if len(mapping) < sum(max(0, len(b) - 2) for _, b in poly):
        t.ev("shared_pairs")
    order = list(qs) + used
    fn = sympy.lambdify(order, new, "math")
    fc = sympy.lambdify(order, cons, "math")
    scale = 1 + sum(abs(c) for c, _ in poly)
    delta = 2 * scale
    best_orig, best_new, argmin = None, None, []
    for b in [tuple(rng.randint(0, 1) for _ in range(n)) for _ in range(40)] + [(1,) * n, (0,) * n] if many else Q.assignments(n):
        want = Q.value(poly, b)
        at = dict(zip(qs, b))
        right = tuple(int(all(at[x] for x in prod[v])) for v in used)
        t.check(abs(float(fn(*b, *right)) - want) < 1e-9 * scale, "the reduced problem has another value with the auxiliaries set to their products", bits=b, got=float(fn(*b, *right)), expected=want, **info)
        t.check(abs(float(fc(*b, *right))) < 1e-9, "the penalty is not zero with the auxiliaries set to their products", bits=b, got=float(fc(*b, *right)), **info)
        t.ev("values")
        others = itertools.product((0, 1), repeat=len(used)) if len(used) <= 4 else [tuple(rng.randint(0, 1) for _ in used) for _ in range(16)]
        for a in others:
            v = float(fn(*b, *a)) + delta * float(fc(*b, *a))
            if best_new is None or v < best_new - 1e-9:
                best_new = v
            if a != right:
                t.check(float(fc(*b, *a)) >= 1 - 1e-9, "a wrong assignment of the auxiliaries has a penalty below one", bits=b, auxiliaries=a, got=float(fc(*b, *a)), **info)
                t.ev("penalties")
        v = float(fn(*b, *right))
        best_new = v if best_new is None else min(best_new, v)
        best_orig = want if best_orig is None else min(best_orig, want)
    t.check(many or abs(best_new - best_orig) < 1e-9 * scale or best_new > best_orig, "the reduced problem has a lower minimum", got=best_new, expected=best_orig, **info)
    t.ev("minima")
    t.key(before)
    t.sample = before
