"""W04: QUBO builders against closed forms, on every assignment."""
import copy
import itertools
import random
from collections import Counter

import numpy as np
from blueqat import wq

from .. import qubo as Q

RULE = ("random arguments of every builder (lists, tuples, arrays, repeated and favoured elements, self-loops and reversed edges) up to 8 bits, the matrix read as an energy on all assignments and compared with the closed form (up to 80 bits: every assignment with one or two ones, which fixes all coefficients, and random ones); arguments "
        "compared before and after; repeated calls with the earlier result modified; accumulation of matrices and text with weights; distinct = builder and arguments")
REQUIRED = ["many_bits", "very_many_bits", "sel", "sel_favoured", "sqr", "mul", "net", "diag", "zeros", "rands", "dbms", "counter", "add_matrix", "add_text", "add_weighted", "size_mismatch", "arguments_unchanged", "independent", "set_rbm"]
ASSUMES = []


def plan(tier):
    k = 5 if tier == "quick" else 30
    return [(b, 40 * k) for b in ("sel", "sqr", "mul", "net", "diag", "rand", "dbms", "counter")] + [("add", 120 * k)]


def energies(m, n):
    return {b: Q.energy(m, b) for b in Q.assignments(n)}


def some(n, key):
    """All assignments of a few bits; of many, those with one or two ones and random others."""
    if n <= 8:
        return Q.assignments(n)
    r = random.Random(key)
    out = [tuple(int(q in s) for q in range(n)) for k in (1, 2) for s in itertools.combinations(range(n), k)]
    return out + [tuple(r.randint(0, 1) for _ in range(n)) for _ in range(20)] + [(0,) * n, (1,) * n]


def all_energies(m, bs):
    if len(bs[0]) <= 14:
        return [Q.energy(m, b) for b in bs]
    a, x = np.array(m, dtype=float), np.array(bs, dtype=float)
    return [float(v) for v in ((x @ a) * x).sum(axis=1)]


def given(rng, xs):
    return rng.choice([list, tuple, np.array])(xs)


def judge(t, name, f, args, n, want, upper=True):
    """f(*args) has the energy want(bits) on every assignment; called twice, the first result spoilt in between."""
    keep = copy.deepcopy(args)
    m = f(*args)
    t.check(repr(keep) == repr(args), f"{name} modified its arguments", before=repr(keep), after=repr(args))
    t.ev("arguments_unchanged")
    t.check(np.shape(m) == (n, n), f"{name}: wrong shape", args=repr(args), got=np.shape(m), expected=(n, n))
    tol = 1e-9 * Q.scale(m)
    if upper:
        t.check(all(float(m[i][j]) == 0 for i in range(n) for j in range(i)), f"{name}: the matrix is not upper triangular", args=repr(args), got=Q.show(m))
    bs = some(n, repr(args))
    values = [want(b) for b in bs]
    for b, e, v in zip(bs, all_energies(m, bs), values):
        if not abs(e - v) <= tol:
            t.fail(f"{name}: wrong energy", args=repr(args), bits=b, got=e, expected=v)
    try:
        m[0][0] = 1e6
    except (IndexError, ValueError):
        pass
    again = f(*args)
    for b, e, v in zip(bs, all_energies(again, bs), values):
        if not abs(e - v) <= tol:
            t.fail(f"{name}: a second call gives another energy", args=repr(args), bits=b, got=e, expected=v)
    t.ev("independent")
    t.ev(name)
    t.key(name, repr(args))
    t.sample = f"{name}{args!r}"


def coeffs(rng, n):
    return [rng.choice([0, 1, -1, 2, 3, .5, -2.5, rng.uniform(-3, 3)]) for _ in range(n)]


def case(t, kind):
    rng = t.rng
    n = rng.choice([1, 2, 3, 4, 5, 6, 8]) if rng.random() < .8 or kind not in ("sel", "sqr", "mul", "net", "diag") else rng.choice([11, 12, 14])
    if kind in ("sel", "sqr", "mul", "net", "diag") and rng.random() < .06:
        n = rng.choice([20, 33, 40, 65, 80])
        t.ev("very_many_bits")
    if n > 10:
        t.ev("many_bits")
    if kind == "sel":
        k = rng.randint(0, n + 1) if rng.random() < .9 else rng.choice([n + 5, 70, 100, 257])
        if rng.random() < .4:
            judge(t, "sel", wq.sel, (n, k), n, lambda b: (sum(b) - k) ** 2 - k * k)
        else:
            fav = [rng.randrange(n) for _ in range(rng.randint(0, 4))] if rng.random() < .4 else rng.sample(range(n), rng.randint(0, n))
            f = given(rng, fav) if fav else rng.choice([[], ()])
            judge(t, "sel", wq.sel, (n, k, f), n, lambda b: (sum(b) - k) ** 2 - k * k - .5 * sum(b[i] for i in fav))
            t.ev("sel_favoured")
    elif kind == "sqr":
        a = coeffs(rng, n)
        judge(t, "sqr", wq.sqr, (given(rng, a),), n, lambda b: sum(x * y for x, y in zip(a, b)) ** 2)
    elif kind == "mul":
        a, c = coeffs(rng, n), coeffs(rng, n)
        judge(t, "mul", wq.mul, (given(rng, a), given(rng, c)), n, lambda b: sum(x * y for x, y in zip(a, b)) * sum(x * y for x, y in zip(c, b)))
    elif kind == "net":
        edges = [(rng.randrange(n), rng.randrange(n)) for _ in range(rng.randint(0, 6) if n < 10 else rng.choice([15, 15, 4 * n]))]
        edges += [e[::-1] for e in edges if rng.random() < .3] + [e for e in edges if rng.random() < .2]
        rng.shuffle(edges)
        distinct = {tuple(sorted(e)) for e in edges}
        arg = rng.choice([lambda: [list(e) for e in edges], lambda: list(edges), lambda: tuple(edges), lambda: [np.array(e) for e in edges], lambda: np.array(edges) if edges else []])()
        judge(t, "net", wq.net, (arg, n), n, lambda b: sum(b[i] * b[j] for i, j in distinct))
    elif kind == "diag":
        a = coeffs(rng, n)
        judge(t, "diag", wq.diag, (given(rng, a),), n, lambda b: sum(x * y for x, y in zip(a, b)))
        m = wq.zeros(n)
        t.check(np.shape(m) == (n, n) and not np.any(m), "zeros: wrong matrix", n=n, got=m)
        m[0, 0] = 3
        t.check(not np.any(wq.zeros(n)), "zeros: a second call gives another matrix", n=n)
        t.ev("zeros")
    elif kind == "rand":
        n = rng.choice([1, 2, 5, 12, 12, 40])
        ms = [np.array(wq.rands(n)) for _ in range(3)]
        for m in ms:
            t.check(m.shape == (n, n) and not np.any(np.tril(m, -1)) and np.all(m >= 0) and np.all(m < 1) and np.all(m[np.triu_indices(n)] > 0), "rands: no upper triangular matrix of values in [0, 1)", got=m)
        t.check(not np.array_equal(ms[0], ms[1]) and len(set(ms[0][np.triu_indices(n)])) == n * (n + 1) // 2, "rands: the values are not random", got=ms[0])
        if n >= 12:
            v = np.concatenate([m[np.triu_indices(n)] for m in ms])
            t.check(abs(v.mean() - .5) < 0.29 * 7 / len(v) ** .5, "rands: the values are not uniform", mean=v.mean())
        t.ev("rands")
        t.key("rand", t.idx)
        t.sample = f"rands({n})"
    elif kind == "dbms":
        layers = [rng.randint(1, 4) for _ in range(rng.choice([1, 2, 3, 4, 5, 6]))] if rng.random() < .9 else [rng.randint(1, 20) for _ in range(rng.choice([2, 3, 9]))]
        w = rng.choice([None, 0, .3, -1.5, 1])
        arg = given(rng, layers)
        keep = repr(arg)
        m = wq.dbms(arg) if w is None else wq.dbms(arg, w) if rng.random() < .5 else wq.dbms(arg, weight_init=w)
        t.check(repr(arg) == keep, "dbms modified its argument", before=keep, after=repr(arg))
        n = sum(layers)
        layer = [i for i, c in enumerate(layers) for _ in range(c)]
        t.check(np.shape(m) == (n, n), "dbms: wrong shape", layers=layers, got=np.shape(m))
        for i in range(n):
            for j in range(n):
                x = float(m[i][j])
                if i == j:
                    ok = 0 <= x < 1 if not w else x == .5
                elif layer[j] == layer[i] + 1:
                    ok = 0 < x < 1 if not w else x == w
                else:
                    ok = x == 0
                t.check(ok, "dbms: a wrong entry", layers=layers, weight_init=w, entry=(i, j), got=x)
        if len(layers) >= 2:
            o = wq.Opt()
            arg2 = list(layers[:2])
            o.setRBM(arg2)
            t.check(o.RBMvisible == layers[0] and o.RBMhidden == layers[1] and np.shape(o.qubo) == (sum(arg2),) * 2, "setRBM: wrong layers", layers=arg2, got=(o.RBMvisible, o.RBMhidden))
            t.check(all((o.qubo[i][j] != 0) == (i == j or i < layers[0] <= j) for i in range(sum(arg2)) for j in range(sum(arg2))), "setRBM: units are connected wrongly", layers=arg2, got=o.qubo)
            t.ev("set_rbm")
        t.ev("dbms")
        t.key("dbms", tuple(layers), w)
        t.sample = f"dbms({layers}, {w})"
    elif kind == "counter":
        rows = [[rng.randint(0, 1) for _ in range(n)] for _ in range(rng.randint(0, 8) if rng.random() < .95 else 300)]
        rows += [list(r) for r in rows if rng.random() < .5]
        arg = rng.choice([lambda: rows, lambda: tuple(rows), lambda: np.array(rows).reshape(len(rows), n), lambda: [np.array(r) for r in rows]])()
        keep = repr(arg)
        got = wq.counter(arg)
        want = Counter("".join("01"[x] for x in r) for r in rows)
        t.check(isinstance(got, Counter) and got == want, "counter: wrong counts", rows=rows, got=got, expected=want)
        t.check(repr(arg) == keep, "counter modified its argument", before=keep)
        t.ev("counter")
        t.key("counter", repr(rows))
        t.sample = f"counter({rows})"
    else:
        n = rng.choice([1, 2, 3, 4, 4, 7])
        o = wq.Opt()
        total = {b: 0.0 for b in Q.assignments(n)}
        mag = 1.0
        log = []
        q0 = None
        if rng.random() < .3:
            q0 = Q.gen_qubo(rng, n)
            mine = Q.frozen(q0)
            o.qubo = q0
            total = energies(q0, n)
            mag += Q.scale(q0)
            log.append(("qubo=", Q.show(q0)))
        for _ in range(rng.randint(1, 4)):
            m = rng.choice([1, 1, 2, -1, .5, 3.25, 0])
            if rng.random() < .35:
                poly = Q.gen_poly(rng, n, 2, coeffs=[1, -2, .5, 3], powers=rng.random() < .3)
                if not any(n - 1 in b for _, b in poly) or not n:
                    poly.append((2.0, (n - 1,)))
                s = Q.text(rng, poly)
                zero = Q.value(poly, (0,) * n)
                if Q.reduced_top(poly) != n - 1:
                    continue
                r = o.add(s) if m == 1 and rng.random() < .5 else o.add(s, m) if rng.random() < .5 else o.add(s, M=m)
                e = {b: Q.value(poly, b) - zero for b in total}
                mag += abs(m) * sum(abs(c) for c, _ in poly)
                t.ev("add_text")
                log.append((s, m))
            else:
                q = Q.gen_qubo(rng, n)
                keep = Q.frozen(q)
                r = o.add(q) if m == 1 and rng.random() < .5 else o.add(q, m) if rng.random() < .5 else o.add(q, M=m)
                t.check(Q.frozen(q) == keep, "add() modified the added QUBO", before=keep, after=Q.frozen(q))
                e = energies(keep, n)
                mag += abs(m) * Q.scale(q)
                t.ev("add_matrix")
                log.append((Q.show(q), m))
                if isinstance(q, (list, np.ndarray)):      # the argument stays the caller's
                    before = Q.frozen(o.qubo)
                    q[0][0] = 77
                    t.check(Q.frozen(o.qubo) == before, "changing the added QUBO afterwards changes the sum", log=log)
            t.check(r is o, "add() does not return the optimizer")
            total = {b: v + m * e[b] for b, v in total.items()}
            if m != 1:
                t.ev("add_weighted")
            t.check(np.shape(o.qubo) == (n, n), "the sum has a wrong shape", log=log, got=np.shape(o.qubo))
            for b, v in total.items():
                t.check(abs(Q.energy(o.qubo, b) - v) <= 1e-9 * mag, "the sum of QUBOs has another energy than the sum of their energies", log=log, bits=b, got=Q.energy(o.qubo, b), expected=v)
        if q0 is not None:
            t.check(Q.frozen(q0) == mine, "add() modified the QUBO that the caller had set", before=mine, after=Q.frozen(q0), log=log)
        if len(o.qubo):
            before = Q.frozen(o.qubo)
            bad = Q.gen_qubo(rng, n + rng.choice([1, 2]) if rng.random() < .5 or n == 1 else n - 1)
            try:
                o.add(bad)
            except ValueError:
                t.ev("size_mismatch")
            else:
                t.fail("a QUBO of another size was accepted", sizes=(n, len(bad)))
            t.check(Q.frozen(o.qubo) == before, "a rejected QUBO changed the sum", before=before, after=Q.frozen(o.qubo))
        t.key("add", repr(log))
        t.sample = repr(log)
