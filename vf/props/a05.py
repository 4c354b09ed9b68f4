"""A05: the circuits which a term appends implement exp(+i c t P) and the product of its operators."""
import math

import numpy as np
from blueqat import Circuit
from blueqat.pauli import I, Term, X, Y, Z

from .. import gen, paulis as P, ref

RULE = ("time evolution of random terms (unsimplified, any order of factors, up to 5 qubits, negative and repeated times, one function reused on several circuits) and every Pauli string of up to 3 qubits, appended after a random "
        "entangling prefix; the final state is compared with the matrix exponential up to global phase and the appended gates must name the term's qubits only; likewise for append_to_circuit; distinct = term and time")
REQUIRED = ["long_products", "evolutions", "strings", "identity", "nonreal", "exported", "exported_raw", "untouched_qubits", "reused", "prefix_kept"]
ASSUMES = ["vf/ref.py's gate matrices; the matrix exponential of c*P is cos + i sin"]
STRINGS = [s for n in (1, 2, 3) for s in __import__("itertools").product("IXYZ", repeat=n)]


def plan(tier):
    k = 5 if tier == "quick" else 30
    return [("string", len(STRINGS)), ("evo", 500 * k), ("export", 250 * k), ("nonreal", 80 * k), ("long", 10 * k)]


def full_matrix(x, n):
    return P.matrix_of(x, n)


def appended(t, c, before, allowed, what):
    """The gates appended to c, which must leave the prefix alone and name allowed qubits only."""
    t.check(len(c.ops) >= len(before) and all(a is b for a, b in zip(c.ops, before)), f"{what} changed the gates that were already there", ops=repr(c))
    t.ev("prefix_kept")
    new = c.ops[len(before):]
    n = c.n_qubits
    for g in new:
        qs = set()
        parts = g.targets if isinstance(g.targets, tuple) else (g.targets,)
        for p in parts:
            qs |= set(ref.resolve1(p, n))
        t.check(qs <= allowed, f"{what} applies a gate to a qubit that the term does not have", gate=str(g), qubits=sorted(qs), term=sorted(allowed))
    t.ev("untouched_qubits")
    return new


def prefix(rng, n):
    return gen.scramble(rng, n) if n > 1 else [("u3", (1.1, .3, -.8), 0)]


def evolve(t, term, times, f=None):
    rng = t.rng
    canon = P.canonical(term)
    ((key, coeff),) = canon.items() if canon else (((), 0.0),)
    qubits = {q for q, _ in key}
    w = max(qubits, default=-1) + 1
    n = max(1, w + rng.choice([0, 0, 1]))
    pre = prefix(rng, n)
    c = gen.build(Circuit, n, pre)
    n = max(n, c.n_qubits)
    state = ref.run(pre, n)
    if f is None:
        f = term.get_time_evolution()
    paulis = [(l.lower(), (), q) for q, l in key]
    for time in times:
        before = list(c.ops)
        f(c, time)
        appended(t, c, before, qubits, "the time evolution")
        ang = float(coeff.real if isinstance(coeff, complex) else coeff) * float(time)
        state = math.cos(ang) * state + 1j * math.sin(ang) * ref.run(paulis, n, state)
        t.ev("evolutions")
        if not key:
            t.ev("identity")
    t.check(c.n_qubits == n, "the register has changed its size", got=c.n_qubits, expected=n, term=repr(term))
    got = c.run()
    t.check(ref.same_up_to_phase(got, state, 1e-8), "the time evolution is not exp(i c t P)", term=repr(term), times=times, circuit=repr(c), got=got, expected=state)
    return f


def case(t, kind):
    rng = t.rng
    if kind == "string":
        s = STRINGS[t.idx]
        ops = [(c, q) for q, c in enumerate(s) if c != "I"]
        rng.shuffle(ops)
        term = Term(tuple(P.CTOR[c][q] for c, q in ops), rng.choice([1.0, -1.0, .5, 2.0]))
        f = None
        for time in (0.37, -1.1, rng.uniform(-10, 10), rng.choice([0.0, math.pi / 2, math.pi, 1])):
            f = evolve(t, term, [time], f)
        t.ev("reused")
        t.ev("strings")
        export(t, term)
        t.key("string", s)
        t.sample = repr(term)
        return
    if kind == "nonreal":
        term = P.gen_term(rng, 3, rng.randint(0, 4), True)
        canon = P.canonical(term)
        if not canon:
            return
        c = list(canon.values())[0]
        if abs(c.imag) == 0:
            term = Term(term.ops, term.coeff * rng.choice([1j, 1 + 1j, 1 - .25j, -1j]))
            c = list(P.canonical(term).values())[0]
        if c.imag == 0:
            return
        try:
            term.get_time_evolution()
        except ValueError:
            t.ev("nonreal")
        else:
            t.fail("the time evolution of a term without real coefficient did not raise ValueError", term=repr(term))
        t.key("nonreal", repr(term))
        t.sample = repr(term)
        return
    if kind == "long":       # many factors, up to ten qubits, repeated factors too
        n = rng.randint(6, 10)
        qs = rng.sample(range(n), rng.randint(4, n)) + [rng.randrange(n) for _ in range(rng.choice([0, 0, 2, 6]))]
        term = Term(tuple(P.CTOR[rng.choice("XYZ")][q] for q in qs), 1.0)
        c = list(P.canonical(term).values())[0]
        term = Term(term.ops, (1j if c.imag else 1) * rng.choice([1.0, -.5, 2.0]))
        evolve(t, term, [rng.uniform(-3, 3) for _ in range(rng.randint(1, 3))])
        export(t, term)
        t.ev("long_products")
        t.key("long", repr(term))
        t.sample = repr(term)
        return
    n = rng.choice([1, 2, 3, 3, 4, 5])
    term = P.gen_term(rng, n, rng.randint(0, 6), rng.random() < .5)
    if kind == "export":
        export(t, term)
        t.key("export", repr(term))
        t.sample = repr(term)
        return
    canon = P.canonical(term)
    c = list(canon.values())[0] if canon else 0
    if isinstance(c, complex) and c.imag:
        if abs(c.real) > 1e-12 * abs(c.imag) and abs(c.imag) > 1e-12 * abs(c.real):
            term = Term(term.ops, term.coeff * (c.conjugate() / abs(c)))      # rounding may leave an imaginary part
            c = list(P.canonical(term).values())[0]
        elif abs(c.imag) > abs(c.real):
            term = Term(term.ops, term.coeff * 1j)
            c = list(P.canonical(term).values())[0]
        if c.imag:
            return
    if abs(c) > 1e3 or c and abs(c) < 1e-6:
        return
    times = [rng.choice([rng.uniform(-3, 3), rng.uniform(-20, 20), 0.0, 1, -2, math.pi / 4, np.float64(.7)]) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    f = evolve(t, term, times)
    if rng.random() < .3:
        evolve(t, term, times[:1], f)
        t.ev("reused")
    t.key("evo", repr(term), tuple(times))
    t.sample = f"{term!r} for {times}"


def export(t, term):
    rng = t.rng
    for simplify in (True, False, None):
        tm = P.terms_of(term)[0][1]
        n = max([q for _, q in tm], default=0) + 1
        pre = prefix(rng, n)
        c = gen.build(Circuit, n, pre)
        n = max(n, c.n_qubits)
        before = list(c.ops)
        if simplify is None:
            term.append_to_circuit(c)
        else:
            term.append_to_circuit(c, simplify) if rng.random() < .5 else term.append_to_circuit(c, simplify=simplify)
        state = ref.run(pre, n)
        canon = P.canonical(Term(term.ops, 1.0))
        ((key, _),) = canon.items()
        if term.coeff == 0 and simplify is not False:
            key = None
        if key is not None:
            want = ref.run([(l.lower(), (), q) for q, l in key], n, state)
            appended(t, c, before, {q for q, _ in key} if simplify is not False else {q for _, q in tm}, "append_to_circuit")
            t.check(ref.same_up_to_phase(c.run(), want, 1e-9), "append_to_circuit does not implement the term's product", term=repr(term), simplify=simplify, circuit=repr(c))
            t.ev("exported" if simplify is not False else "exported_raw")
