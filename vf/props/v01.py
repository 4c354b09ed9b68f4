"""V01: the variational energy is <psi|H|psi>."""
import itertools
import math

import numpy as np
from blueqat import Circuit, vqe
from blueqat.pauli import Expr, I, Term, X, Y, Z

from .. import gen, paulis as P, ref

RULE = ("random Hermitian Hamiltonians (unsimplified products, constants, Y-rich, terms and expressions) with random circuits of fewer, equal and more qubits: energy by the sparse matrix (every storage format, a user's method), by "
        "the exact sampler and by a scripted sampler, directly and through the objective function, compared with the dense expectation value; sampled energies on stabilizer states (exact) and on random states (bounded deviation); "
        "distinct = Hamiltonian and circuit")
REQUIRED = ["sparse", "exact_sampler", "objective", "more_qubits", "fewer_qubits", "odd_y", "constant", "unsimplified", "formats", "make_method", "eigenstate_sampled", "statistical", "single_term_frequencies", "circuit_unchanged", "hand_sampler"]
ASSUMES = ["Hoeffding and Chernoff bounds with error probability below 1e-10 per test"]
FMT = ["csc", "csr", "bsr", "coo", "dia", "dok", "lil", None]


def plan(tier):
    k = 4 if tier == "quick" else 30
    return [("energy", 500 * k), ("eigen", 60 * k), ("stat", 60 * k), ("single", 40 * k)]


class Fixed(vqe.AnsatzBase):
    """An ansatz whose circuit is given by a function of the parameters."""

    def __init__(self, hamiltonian, n_params, make):
        super().__init__(hamiltonian, n_params)
        self.make = make

    def get_circuit(self, params):
        return self.make(params)


def hamiltonian(rng, n):
    """Hermitian Term or Expr on (up to) n qubits, in some form."""
    ts = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6]) if rng.random() < .97 else rng.choice([15, 30, 70])):
        qs = rng.sample(range(n), rng.randint(0, n))
        letters = rng.choice(["XYZ", "XYZ", "Y", "ZZZX", "XY"])
        c = rng.choice([1.0, -1.0, .5, -2.0, .25, 3, rng.uniform(-2, 2), np.float64(rng.uniform(-1, 1))])
        ts.append(Term(tuple(P.CTOR[rng.choice(letters)][q] for q in qs), c))
    if ts and rng.random() < .3:
        h = ts[0]
        if rng.random() < .5:    # X Y Z X ... on one qubit, with the phase that makes it Hermitian
            q = rng.randrange(n)
            h = rng.choice([1j * (X[q] * Y[q]), -1j * (Z[q] * Y[q]), X[q] * Y[q] * X[q], Z[q] * Z[q] * Y[q], 1j * (Y[q] * Z[q])]) * rng.choice([1.0, -.5])
        return h
    h = Expr(tuple(ts))
    r = rng.random()
    if r < .35:
        h = P.rewrite(rng, h)
    elif r < .6:
        h = h.simplify()
    return h


def expectation(h, state, n):
    """<psi|H|psi>, where qubits without a gate are |0>."""
    w = P.width(h)
    if w > n:
        state = np.concatenate([state, np.zeros(2 ** w - 2 ** n)])
        n = w
    return float(np.vdot(state, P.matrix_of(h, n) @ state).real)


def scale_of(h):
    return 1 + sum(abs(c) for c, _ in P.terms_of(h))


def hand_sampler(circuit, meas):
    """A user's sampler: exact, with other types, zero entries and another order."""
    meas = list(meas)
    d = ref.marginal(np.asarray(circuit.run()), meas)
    for k in itertools.product((0, 1), repeat=min(len(meas), 3)):
        if len(k) == len(meas):
            d.setdefault(k, 0.0)
    return dict(reversed(list(d.items())))


def case(t, kind):
    rng = t.rng
    if kind == "energy":
        n0, ops, n = gen.program(rng, nmax=4, maxops=8)
        if n < 5 and rng.random() < .5:
            n0, ops, n = gen.program(rng, nmax=4 if rng.random() < .95 else 8, maxops=8, rich=False)
        h = hamiltonian(rng, rng.choice([1, 2, 3, 4, 5, max(n, 1)]))
        if P.width(h) > n and gen.relative(ops):
            n0, ops = 0, [("u3", (.3, 1.0, -.7), q) for q in range(n)] + ([("cx", (), (0, n - 1))] if n > 1 else [])
        state = ref.run(ops, n)
        want = expectation(h, state, n)
        tol = 1e-9 * scale_of(h)
        w = P.width(h)
        before = repr(h)
        info = dict(hamiltonian=before, circuit=gen.show(n0, ops), expected=want)
        a = Fixed(h, 0, lambda params: gen.build(Circuit, n0, ops))
        c = gen.build(Circuit, n0, ops, rng)
        shown = repr(c)

        def judge(got, how):
            t.check(isinstance(got, (float, int, np.number)) and abs(got - want) <= tol, "the energy is not <psi|H|psi>", how=how, got=repr(got), **info)
            t.check(repr(c) == shown, "calculating the energy changed the circuit", how=how, before=shown, after=repr(c))
            t.ev("circuit_unchanged")

        for _ in range(2):
            judge(a.get_energy(c, vqe.non_sampling_sampler), "exact sampler")
            t.ev("exact_sampler")
        judge(a.get_energy(c, hand_sampler), "user's sampler")
        t.ev("hand_sampler")
        if rng.random() < .5:
            f = rng.choice(FMT)
            a.make_sparse(f) if rng.random() < .7 else a.make_sparse(fmt=f)
            t.ev("formats")
        elif rng.random() < .5:
            f = "method"
            a.make_sparse(make_method=lambda x: x.to_matrix(sparse="csr"))
            t.ev("make_method")
        else:
            f = "default"
            a.make_sparse()
        for _ in range(2):
            judge(a.get_energy_sparse(c), f"sparse {f}")
            t.ev("sparse")
        if rng.random() < .5:
            a = Fixed(h, 0, lambda params: gen.build(Circuit, n0, ops))
        for s in (None, vqe.non_sampling_sampler):
            o = a.get_objective(s) if s or rng.random() < .5 else a.get_objective()
            for _ in range(2):
                judge(o([]), f"objective with {s}")
                t.ev("objective")
        t.check(repr(h) == before, "calculating the energy changed the Hamiltonian", before=before, after=repr(h))
        t.ev("more_qubits" if n > w else "fewer_qubits" if n < w else "same_qubits")
        can = P.canonical(h)
        if any(sum(x == "Y" for _, x in k) % 2 for k in can):
            t.ev("odd_y")
        if () in can:
            t.ev("constant")
        if sorted(len(o) for _, o in P.terms_of(h)) != sorted(len(k) for k in can):
            t.ev("unsimplified")
        t.key(before, gen.structure(ops))
        t.sample = f"{before} on {gen.show(n0, ops)}"
        return
    n = rng.choice([1, 2, 3])
    if kind == "eigen":
        ops = gen.gen_ops(rng, n, rng.randint(2, 10), ["h", "s", "sdg", "x", "y", "z"] + (["cx", "cz", "swap"] if n > 1 else []), rich=False)
        ops, n = gen.make_valid(ops, n)
        u = ref.unitary(ops, n)
        state = u[:, 0]
        ts, val = [], 0.0
        for k in itertools.product("IXYZ", repeat=n):
            m = ref.pauli_matrix([(c, q) for q, c in enumerate(k) if c != "I"], n)
            e = np.vdot(state, m @ state).real
            if abs(abs(e) - 1) < 1e-9 and rng.random() < .7:
                c = rng.choice([1.0, -1.0, .5, 2.0, rng.uniform(-1, 1)])
                ts.append(Term(tuple(P.CTOR[x][q] for q, x in enumerate(k) if x != "I"), c))
                val += c * round(e)
        if not ts:
            return
        h = Expr(tuple(ts))
        if rng.random() < .4:
            h = P.rewrite(rng, h)
        for s, how in ((vqe.get_measurement_sampler(rng.choice([1, 2, 7])), "measurement"), (vqe.get_state_vector_sampler(rng.choice([1, 3, 10])), "state vector"),
                       (vqe.get_measurement_sampler(3, {"backend": "numpy"}), "measurement with options"), (vqe.non_sampling_sampler, "exact")):
            a = Fixed(h, 0, lambda p: gen.build(Circuit, n, ops))
            c = gen.build(Circuit, n, ops)
            shown = repr(c)
            got = a.get_energy(c, s) if rng.random() < .5 else a.get_objective(s)([])
            t.check(abs(got - val) <= 1e-9 * scale_of(h), "the sampled energy of an eigenstate of every term is not exact", sampler=how, hamiltonian=repr(h), circuit=gen.show(n, ops), got=got, expected=val)
            t.check(repr(c) == shown, "calculating the energy changed the circuit", before=shown, after=repr(c))
            t.ev("eigenstate_sampled")
        t.key("eigen", repr(h), gen.structure(ops))
        t.sample = f"{h!r} on {gen.show(n, ops)}"
        return
    n0, ops, n = gen.program(rng, nmax=3, maxops=4)
    ops = ops + gen.scramble(rng, max(n, 1))
    ops, n = gen.make_valid(ops, n0)
    if kind == "stat":
        h = hamiltonian(rng, max(n, 1) + (rng.random() < .3 and not gen.relative(ops))).to_expr()
        want = expectation(h, ref.run(ops, n), n)
        shots = rng.choice([50, 400, 1000])
        # every term's estimate is a mean of `shots` independent values c * +-1
        sq = sum(abs(c) ** 2 for k, c in P.canonical(h).items() if k)
        bound = math.sqrt(math.log(2e11) * 2 * sq / shots) + 1e-9 * scale_of(h)
        for s, how in ((vqe.get_measurement_sampler(shots), "measurement"), (vqe.get_state_vector_sampler(shots), "state vector")):
            a = Fixed(h, 0, lambda p: gen.build(Circuit, n0, ops))
            got = a.get_energy(gen.build(Circuit, n0, ops), s)
            t.check(abs(got - want) <= bound, "the sampled energy deviates more from <psi|H|psi> than chance allows", sampler=how, shots=shots, hamiltonian=repr(h), circuit=gen.show(n0, ops), got=got, expected=want, bound=bound)
            t.ev("statistical")
        t.key("stat", repr(h), gen.structure(ops))
        t.sample = f"{h!r} on {gen.show(n0, ops)}"
        return
    # one term: the number of odd outcomes is binomial
    qs = rng.sample(range(max(n, 1)), rng.randint(1, max(n, 1)))
    term = Term(tuple(P.CTOR[rng.choice("XYZ")][q] for q in qs), 1.0)
    want = expectation(term, ref.run(ops, n), n)
    shots = 3000
    for s, how in ((vqe.get_measurement_sampler(shots), "measurement"), (vqe.get_state_vector_sampler(shots), "state vector")):
        a = Fixed(rng.choice([term, term.to_expr()]), 0, lambda p: gen.build(Circuit, n0, ops))
        got = a.get_energy(gen.build(Circuit, n0, ops), s)
        k = (1 - got) / 2 * shots
        t.check(abs(k - round(k)) < 1e-6, "the sampled energy is not a mean of +1 and -1", got=got, shots=shots)
        t.check(ref.log_binom_tail_ok(round(k), shots, min(1.0, max(0.0, (1 - want) / 2)), 1e-10), "the sampled energy is biased", sampler=how, term=repr(term), circuit=gen.show(n0, ops), got=got, expected=want)
        t.ev("single_term_frequencies")
    t.key("single", repr(term), gen.structure(ops))
    t.sample = f"{term!r} on {gen.show(n0, ops)}"
