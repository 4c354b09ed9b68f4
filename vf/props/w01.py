"""W01: QUBO, Ising and Pauli forms have the same energy for every assignment."""
import itertools

import numpy as np
from blueqat import wq

from .. import paulis as P, qubo as Q

RULE = ("random QUBO matrices (lists, tuples, arrays; entries in the upper, the lower or both triangles; integers and floats, small and large) up to 8 bits: all assignments (up to 40 bits: every assignment with one or two ones and random ones), energy by definition against the Pauli form at the basis "
        "state, the Ising form plus offset, and the energy the annealer lists; distinct = matrix")
REQUIRED = ["assignments", "pauli", "ising", "lower_entries", "array", "qubo_unchanged", "reused", "qaoa", "very_wide", "nearly_equal"]
ASSUMES = ["the reader of Pauli terms in vf/paulis.py"]


def plan(tier):
    k = 6 if tier == "quick" else 30
    return [("rand", 250 * k), ("wide", 8 * k), ("very_wide", 2 * k), ("qaoa", 6 if tier == "quick" else 60)]


def diag_energy(can, bits):
    v = 0.0
    for key, c in can.items():
        s = c.real
        for q, l in key:
            s *= -1 if bits[q] else 1
        v += s
    return v


def judge(t, q, o=None):
    n = len(q)
    frozen = Q.frozen(q)
    tol = 1e-9 * Q.scale(q)
    h = wq.pauli(q)
    can = P.canonical(h)
    t.check(all(l == "Z" for k in can for _, l in k) and all(abs(c.imag) == 0 for c in can.values()), "the Pauli form is not diagonal", qubo=Q.show(q), got=repr(h))
    o = o or wq.Opt()
    o.qubo = q
    o.qi()
    for bits in Q.assignments(n):
        want = Q.energy(frozen, bits)
        got = diag_energy(can, bits)
        t.check(abs(got - want) <= tol, "the Pauli form has another energy than the QUBO", qubo=Q.show(q), bits=bits, got=got, expected=want)
        t.ev("pauli")
        spins = np.array([2 * b - 1 for b in bits])
        ising = wq.Ei(spins, o.J) + o.ep
        t.check(abs(ising - want) <= tol, "the Ising form plus offset has another energy than the QUBO", qubo=Q.show(q), bits=bits, got=ising, expected=want)
        t.ev("ising")
        t.ev("assignments")
    t.check(Q.frozen(q) == frozen and Q.frozen(o.qubo) == frozen, "the QUBO was modified", before=frozen, after=Q.frozen(q))
    t.ev("qubo_unchanged")
    if isinstance(q, np.ndarray):
        t.ev("array")
    if any(frozen[i][j] for i in range(n) for j in range(i)):
        t.ev("lower_entries")
    return o


def wide(t, n):
    """Many bits: every assignment with one or two ones (which fixes all coefficients) and random ones."""
    rng = t.rng
    q = Q.gen_qubo(rng, n)
    f = np.array(Q.frozen(q))
    tol = 1e-9 * Q.scale(q)
    bs = [tuple(int(i in s) for i in range(n)) for k in (0, 1, 2) for s in itertools.combinations(range(n), k)]
    bs += [tuple(rng.randint(0, 1) for _ in range(n)) for _ in range(20)] + [(1,) * n]
    x = np.array(bs, dtype=float)
    want = ((x @ f) * x).sum(axis=1)
    can = P.canonical(wq.pauli(q))
    t.check(all(l == "Z" for k in can for _, l in k) and all(c.imag == 0 for c in can.values()), "the Pauli form is not diagonal", qubo=Q.show(q))
    z = 1 - 2 * x
    got = np.zeros(len(bs))
    for k, c in can.items():
        got += c.real * np.prod([z[:, i] for i, _ in k], axis=0) if k else c.real
    i = int(np.argmax(np.abs(got - want)))
    t.check(abs(got[i] - want[i]) <= tol, "the Pauli form has another energy than the QUBO", qubo=Q.show(q), bits=bs[i], got=got[i], expected=want[i])
    o = wq.Opt()
    if rng.random() < .6:       # solved before with one entry in the middle different
        f2 = f.copy()
        a, b = rng.randrange(5, n - 5), rng.randrange(5, n - 5)
        f2[a, b] += 3
        o.qubo = f2
        o.qi()
    o.qubo = q
    o.qi()
    j = np.array(o.J, dtype=float)
    sp = 2 * x - 1
    off = np.triu(j, 1)
    got = sp @ np.diag(j) + ((sp @ off) * sp).sum(axis=1) + o.ep
    i = int(np.argmax(np.abs(got - want)))
    for i in [i] + rng.sample(range(len(bs)), 5):
        e = wq.Ei(np.array([2 * b - 1 for b in bs[i]]), o.J) + o.ep
        t.check(abs(e - want[i]) <= tol, "the Ising form plus offset has another energy than the QUBO", qubo=Q.show(q), bits=bs[i], got=e, expected=want[i])
    t.check(np.array_equal(Q.frozen(q), f) and np.array_equal(Q.frozen(o.qubo), f), "the QUBO was modified", before=Q.show(f), after=Q.show(q))
    t.ev("very_wide")
    t.key("very wide", Q.show(q))
    t.sample = f"{n} bits"


def case(t, kind):
    rng = t.rng
    if kind == "very_wide":
        return wide(t, rng.choice([16, 20, 24, 33, 40]))
    if kind == "qaoa":
        n = rng.choice([1, 2])
        q = Q.gen_qubo(rng, n, "int")
        if any(not any(q[i][j] or q[j][i] for j in range(n)) or not q[n - 1][n - 1] for i in range(n)):
            return
        o = wq.Opt()
        o.qubo = q
        r = o.qaoa() if rng.random() < .5 else o.qaoa(step=1)
        can = P.canonical(r.vqe.ansatz.hamiltonian)
        for bits in Q.assignments(n):
            t.check(abs(diag_energy(can, bits) - Q.energy(q, bits)) <= 1e-9 * Q.scale(q), "qaoa() optimises another energy than the QUBO's", qubo=Q.show(q), bits=bits)
        d = r.get_probs()
        t.check(all(len(k) == r.circuit.n_qubits for k in d) and abs(sum(d.values()) - 1) < 1e-9, "qaoa() gives no distribution over bits", got=d)
        t.ev("qaoa")
        t.key("qaoa", Q.show(q))
        t.sample = Q.show(q)
        return
    n = rng.randint(6, 8) if kind == "wide" else rng.choice([1, 2, 2, 3, 3, 4, 5])
    q = Q.gen_qubo(rng, n)
    o = judge(t, q)
    if rng.random() < .1:       # the same optimizer with a problem that differs little
        a, b = rng.randrange(n), rng.randrange(n)
        q = Q.frozen(q)
        step = rng.choice([1, 1e-3 * Q.scale(q), 1e-6 * Q.scale(q), 2e-8 * Q.scale(q)])
        q[a][b] += step
        judge(t, q if rng.random() < .5 else np.array(q), o)
        t.ev("nearly_equal")
    if rng.random() < .4:       # the same optimizer with the next problem
        judge(t, Q.gen_qubo(rng, rng.choice([1, 2, 3, n])), o)
        t.ev("reused")
    t.key(Q.show(q), type(q).__name__)
    t.sample = Q.show(q)
