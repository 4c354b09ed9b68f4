"""U06: work is not done twice; gate actions, runs, sampler calls and evaluations are counted against a model of what is new."""
import copy
import pickle
import random
from collections import Counter

import numpy as np
from blueqat import BlueqatGlobalSetting, Circuit, pauli, vqe
from blueqat.backends.numpy_backend import NumPyBackend

from .. import fakenumba, gen

RULE = ("histories on pools of circuits (gates added, runs with and without shots, copies, sums, daggers, exports, make_cache) and evaluations of objectives, minimisations, samplers and results, while the actions of the NumPy "
        "backend, its runs, sampler and ansatz calls, matrices and backend objects made are counted and compared with the most a model of the caches allows; distinct = history")
REQUIRED = ["actions_counted", "nothing_again", "only_new", "after_widening", "shots_prefix", "of_copy", "of_sum", "idle_call", "objective", "sparse_objective", "sampler_calls", "vqe_run", "result_again", "minimizer", "one_run_of_sampler",
            "constructed_once", "init_cached", "refused_between", "many_shots", "default_elsewhere", "numba_counted"]
ASSUMES = ["doing less than the model allows is not judged here: results are the subject of other properties"]
COUNT = Counter()
DEPTH = [0]
NONUNITARY = {"measure", "reset"}
NAMES = ["x", "y", "z", "h", "t", "s", "sdg", "rx", "ry", "rz", "phase", "u1", "u2", "u3", "cx", "cz", "cy", "ch", "crx", "cphase", "cu1", "cu3", "swap", "rxx", "rzz", "ccx", "cswap", "i"]


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [("history", 5000 * k), ("energy", 600 * k), ("vqe", 500 * k), ("sampler", 500 * k), ("minimizer", 48 * k), ("backend", 400 * k), ("numba", 40 * k)]


def prepare():
    def action(f):
        def counted(self, gate, ctx, *a, **kw):
            if not DEPTH[0]:
                COUNT["actions"] += 1
            DEPTH[0] += 1
            try:
                return f(self, gate, ctx, *a, **kw)
            finally:
                DEPTH[0] -= 1
        return counted

    def run(f):
        def counted(self, *a, **kw):
            COUNT["runs"] += 1
            DEPTH[0] = 0
            return f(self, *a, **kw)
        return counted
    fakenumba.install()
    from blueqat.backends._numba_backend_impl import NumbaBackend
    for cls in (NumPyBackend, NumbaBackend):
        for name in dir(cls):
            if name.startswith("gate_"):
                setattr(cls, name, action(getattr(cls, name)))
        cls.run = run(cls.run)
    make = pauli.Expr.to_matrix

    def to_matrix(self, *a, **kw):
        COUNT["matrices"] += 1
        return make(self, *a, **kw)
    pauli.Expr.to_matrix = to_matrix


def counts(f, *a, **kw):
    COUNT.clear()
    DEPTH[0] = 0
    r = f(*a, **kw)
    return Counter(COUNT), r


def flat(ops, n, cls=NumPyBackend):
    """Actions for these gates, fallbacks resolved."""
    total = 0
    for g in ops:
        if hasattr(cls, "gate_" + g.lowername):
            total += 1
        else:
            total += flat(g.fallback(n), n, cls)
    return total


class Model:
    """How many leading gates of a circuit are cached."""

    def __init__(self, c, k=0, n=None):
        self.c, self.k, self.n = c, k, n

    def split(self):
        """(actions done once, actions of every shot, gates cached afterwards)"""
        ops, n = self.c.ops, self.c.n_qubits
        k = self.k if n == self.n else 0
        p = next((i for i, g in enumerate(ops) if g.lowername in NONUNITARY), len(ops))
        p = max(p, k)
        return flat(ops[k:p], n), flat(ops[p:], n), p

    def ran(self):
        self.k, self.n = self.split()[2], self.c.n_qubits


def add(rng, c, n):
    for op in gen.gen_ops(rng, n, rng.randrange(1, 5), NAMES, rich=False):
        gen.apply_op(c, op)
    return c


def history(t, rng):
    n = rng.choice([3, 4])
    pool = [Model(add(rng, Circuit(n), n))]
    log = []
    for _ in range(rng.choice([8, 14])):
        m = rng.choice(pool)
        what = rng.choice(["run", "run", "run", "again", "gate", "gate", "measure", "shots", "copy", "plain_copy", "sum", "dagger", "idle", "wider", "cache", "refused", "iadd"])
        log.append(what)
        if what in ("run", "again", "cache", "shots"):
            once, each, _ = m.split()
            shots = rng.choice([2, 5, 40 if len(m.c.ops) < 12 else 3]) if what == "shots" else 1
            before = m.k
            if what == "cache":
                got, _ = counts(m.c.make_cache)
            elif what == "shots":
                got, _ = counts(m.c.run, shots=shots)
                t.ev("many_shots", shots > 20)
            else:
                kw = rng.choice([{}, {}, dict(ignore_global=True), dict(returns="statevector"), dict(backend="numpy")])
                got, _ = counts(m.c.run, **kw)
            most = once + shots * each
            t.check(got["actions"] <= most, "gates already worked out are run again", step=what, actions=got["actions"], most=most, cached=before, gates=len(m.c.ops), qubits=m.c.n_qubits, history=log)
            t.check(got["runs"] <= 1, "one call runs the circuit more than once", step=what, runs=got["runs"], history=log)
            t.ev("actions_counted", got["actions"])
            wide = m.n is not None and m.n != m.c.n_qubits
            m.ran()
            if wide:
                t.ev("after_widening")
            elif most == 0:
                t.ev("nothing_again")
            elif before:
                t.ev("only_new")
            if each and before and shots > 1:
                t.ev("shots_prefix")
        elif what == "gate":
            add(rng, m.c, m.c.n_qubits)
        elif what == "wider":
            if m.c.n_qubits < 6:
                m.c.x[m.c.n_qubits]
        elif what == "measure":
            rng.choice([m.c.m, m.c.reset])[rng.randrange(m.c.n_qubits)]
        elif what in ("copy", "plain_copy"):
            with_backends = what == "copy"
            d = rng.choice([m.c.copy, lambda: copy.deepcopy(m.c)])() if with_backends and rng.random() < .3 else m.c.copy(copy_backends=with_backends)
            shared = d.ops[:m.k] and all(a is b for a, b in zip(d.ops[:m.k], m.c.ops))
            pool.append(Model(d, m.k if with_backends and shared else 0, m.n))
            t.ev("of_copy")
        elif what == "sum":
            other = rng.choice(pool)
            if len(m.c.ops) + len(other.c.ops) < 60:
                pool.append(Model(m.c + other.c, m.k, m.n))
                t.ev("of_sum")
        elif what == "iadd":
            other = rng.choice(pool)
            if other is not m and len(m.c.ops) + len(other.c.ops) < 60:
                m.c += other.c
        elif what == "dagger":
            d = m.c.dagger(ignore_measurement=True, copy_backends=rng.random() < .3)
            pool.append(Model(d))
        elif what == "refused":
            for bad in (lambda: m.c.run(returns="nonsense"), lambda: m.c.run(backend="nonsense"), lambda: m.c.no_gate):
                try:
                    got, _ = counts(bad)
                except Exception:
                    got = Counter(COUNT)
                t.check(not got["actions"], "a refused call runs gates", history=log)
            t.ev("refused_between")
        else:
            idle = dict(qasm=lambda: m.c.copy(copy_backends=False).to_qasm() if all(g.lowername not in ("reset", "rxx", "ryy", "rzz") for g in m.c.ops) else 0, repr=lambda: repr(m.c), copy=lambda: m.c.copy(), dagger=lambda: m.c.dagger(ignore_measurement=True),
                        add=lambda: m.c + m.c, pickle=lambda: pickle.loads(pickle.dumps(m.c)), deep=lambda: copy.deepcopy(m.c), n=lambda: m.c.n_qubits, default=lambda: m.c.get_default_backend_name())
            name = rng.choice(sorted(idle))
            got, _ = counts(idle[name])
            t.check(not got["actions"] and not got["runs"], "a call that needs no simulation runs gates", call=name, actions=got["actions"])
            t.ev("idle_call")
        if len(pool) > 5:
            pool.pop(rng.randrange(5))
    t.key(tuple(log), tuple(len(m.c.ops) for m in pool))
    t.sample = " ".join(log)


def numba_case(t, rng):
    from blueqat.backends._numba_backend_impl import NumbaBackend
    n, k, width, log = 3, 0, None, []
    c = add(rng, Circuit(n), n)
    for _ in range(6):
        what = rng.choice(["run", "run", "gate", "measure", "shots", "copy", "cache", "elsewhere"])
        log.append(what)
        if what == "gate":
            add(rng, c, n)
        elif what == "measure":
            c.m[rng.randrange(n)]
        elif what == "copy":
            c = c.copy()
        elif what == "elsewhere":
            c.run()
        else:
            ops = c.ops
            p = max(k, next((i for i, g in enumerate(ops) if g.lowername in NONUNITARY), len(ops)))
            shots = 3 if what == "shots" else 1
            most = flat(ops[k:p], n, NumbaBackend) + shots * flat(ops[p:], n, NumbaBackend)
            got, _ = counts(c.make_cache, backend="numba") if what == "cache" else counts(c.run, backend="numba", shots=3) if what == "shots" else counts(c.run, backend="numba")
            t.check(got["actions"] <= most, "gates already worked out on numba are run again", step=what, actions=got["actions"], most=most, cached=k, gates=len(ops), history=log)
            t.ev("numba_counted", got["actions"])
            k = p
    t.key("numba", tuple(log), len(c.ops))
    t.sample = "numba: " + " ".join(log)


def hamiltonian(rng, n, diagonal):
    if diagonal:
        e = sum((rng.uniform(.2, 1) * pauli.Z[i] * pauli.Z[(i + 1) % n] for i in range(n)), rng.uniform(.2, 1) * pauli.Z[0])
        return e + 1.5 if rng.random() < .3 else e
    return rng.uniform(.2, 1) * pauli.X[0] * pauli.X[1] + rng.uniform(.2, 1) * pauli.Y[0] * pauli.Y[1] + rng.uniform(.2, 1) * pauli.Z[0] * pauli.Z[1]


def basis_gates(expr):
    return [(sum(op.op in "XY" for op in term.ops), len(term.ops)) for term in expr.to_expr().simplify()]


class Ansatz(vqe.AnsatzBase):
    def __init__(self, h, n, rng):
        super().__init__(h, 2)
        self.n, self.made = n, 0

    def get_circuit(self, params):
        self.made += 1
        return Circuit(self.n).ry(params[0])[:].cx[0, 1].rz(params[1])[1].rx(.3)[0]


def energy(t, rng):
    n = rng.choice([2, 3, 4])
    h = hamiltonian(rng, n, rng.random() < .6)
    own = rng.random() < .3
    if own:
        a = Ansatz(h, n, rng)
        step, init = 1, 0
    else:
        step = rng.choice([1, 2])
        first = add(rng, Circuit(n), n) if rng.random() < .5 else None
        mixer = [.5 * pauli.X[i] for i in range(n)] if first is not None and rng.random() < .4 else None
        a = vqe.QaoaAnsatz(h, step, init_circuit=first, mixer=mixer)
        init = flat(a.init_circuit.ops, n) if a.init_circuit.n_qubits == n else 0
        if first is not None:
            t.ev("init_cached")
    terms = basis_gates(h)
    kind = rng.choice(["sparse", "exact", "state", "measured", "counted"])
    calls = [0]

    def counted(circuit, meas):
        calls[0] += 1
        return vqe.non_sampling_sampler(circuit, meas)
    shots = rng.choice([3, 20])
    sampler = dict(sparse=None, exact=vqe.non_sampling_sampler, state=vqe.get_state_vector_sampler(shots), measured=vqe.get_measurement_sampler(shots), counted=counted)[kind]
    got, _ = counts(lambda: [a.get_objective(sampler) for _ in range(3)])
    t.check(got["matrices"] <= 1, "the Hamiltonian's matrix is made again", matrices=got["matrices"])
    f = a.get_objective(sampler)
    for _ in range(3):
        params = [rng.uniform(0, 1) for _ in range(a.n_params)]
        full = flat(a.get_circuit(params).ops, n)
        if own:
            a.made = 0
        calls[0] = 0
        got, _ = counts(f, params)
        most = full - init
        if kind != "sparse":
            most += sum(b for b, _ in terms) + (shots * len(terms) if kind == "measured" else 0)
        t.check(got["actions"] <= most, "an evaluation runs gates again", sampler=kind, actions=got["actions"], most=most, ansatz=full, init=init, terms=terms)
        t.check(got["runs"] <= 2 + len(terms), "an evaluation runs the circuit more often than the terms ask for", runs=got["runs"], terms=len(terms))
        t.check(got["matrices"] == 0, "an evaluation makes the Hamiltonian's matrix again")
        t.check(calls[0] <= len(terms), "the sampler is called more than once per term", calls=calls[0], terms=len(terms))
        if own:
            t.check(a.made <= 1, "an evaluation makes the circuit more than once", made=a.made)
        t.ev("actions_counted", got["actions"])
        t.ev("objective" if kind != "sparse" else "sparse_objective")
        t.ev("sampler_calls", calls[0])
    t.key("energy", kind, own, n, step, len(terms), init)
    t.sample = f"objective with {kind} sampler on {n} qubits, {len(terms)} terms"


def vqe_case(t, rng):
    n = rng.choice([2, 3])
    h = hamiltonian(rng, n, rng.random() < .6)
    a = Ansatz(h, n, rng)
    calls = [0]

    def counted(circuit, meas):
        calls[0] += 1
        return vqe.non_sampling_sampler(circuit, meas)
    evaluations = rng.choice([1, 3, 7])
    sampler = rng.choice([None, counted])
    v = vqe.Vqe(a, minimizer=lambda f, m: min(([.1 * i + .2] * m for i in range(evaluations)), key=f), sampler=sampler)
    terms = len(basis_gates(h))
    full = flat(Circuit(n).ry(.1)[:].cx[0, 1].rz(.2)[1].rx(.3)[0].ops, n)
    for _ in range(rng.choice([1, 2])):
        calls[0] = a.made = 0
        got, r = counts(v.run)
        t.check(a.made <= evaluations + 1, "a minimisation makes more circuits than evaluations and the result need", made=a.made, evaluations=evaluations)
        t.check(calls[0] <= evaluations * terms, "a minimisation samples more often than its evaluations need", calls=calls[0], evaluations=evaluations, terms=terms)
        most = evaluations * (full + (sum(b for b, _ in basis_gates(h)) if sampler else 0))
        t.check(got["actions"] <= most, "a minimisation runs gates again", actions=got["actions"], most=most)
        t.check(got["matrices"] <= 1, "the Hamiltonian's matrix is made again", matrices=got["matrices"])
        t.ev("vqe_run")
        t.ev("actions_counted", got["actions"])
        calls[0] = 0
        got, _ = counts(r.get_probs)
        t.check(got["actions"] <= full and got["runs"] <= 1 and calls[0] <= 1, "probabilities are worked out more than once", runs=got["runs"], calls=calls[0], actions=got["actions"], most=full)
        for again in rng.sample([r.get_probs, r.most_common, lambda: r.most_common(3), lambda: r.probs, lambda: r.get_probs(rerun=False)], 3):
            calls[0] = 0
            got, _ = counts(again)
            t.check(not got["actions"] and not got["runs"] and not calls[0], "known probabilities are worked out again", runs=got["runs"], calls=calls[0])
            t.ev("result_again")
        calls[0] = 0
        got, _ = counts(r.get_probs, rerun=True)
        t.check(got["actions"] == 0 and got["runs"] <= 1 and calls[0] <= 1, "a rerun of a circuit already cached runs its gates again", runs=got["runs"], calls=calls[0], actions=got["actions"])
    t.key("vqe", n, evaluations, sampler is None, terms)
    t.sample = f"Vqe with {evaluations} evaluations of {terms} terms"


def sampler_case(t, rng):
    n = rng.choice([2, 3, 4])
    c = add(rng, Circuit(n), n)
    for _ in range(3):
        add(rng, c, n)
    full = flat(c.ops, n)
    shots = rng.choice([1, 7, 60])
    meas = tuple(rng.sample(range(n), rng.randrange(1, n + 1)))
    name = rng.choice(["exact", "state", "measured"])
    s = dict(exact=vqe.non_sampling_sampler, state=vqe.get_state_vector_sampler(shots), measured=vqe.get_measurement_sampler(shots))[name]
    cached = rng.random() < .5
    if cached:
        c.make_cache()
    got, _ = counts(s, c, meas)
    most = (0 if cached else full) + (shots if name == "measured" else 0)
    t.check(got["runs"] <= 1, "a sampler runs the circuit more than once", sampler=name, runs=got["runs"], shots=shots)
    t.check(got["actions"] <= most, "a sampler runs gates again", sampler=name, actions=got["actions"], most=most, cached=cached)
    v = c.run()
    got, _ = counts(vqe.expect, v, meas)
    t.check(not got["runs"] and not got["actions"], "expect runs a circuit")
    t.ev("one_run_of_sampler")
    t.ev("actions_counted", most)
    t.key("sampler", name, n, shots, meas, cached, len(c.ops))
    t.sample = f"{name} sampler, {shots} shots, {len(c.ops)} gates, cached={cached}"


def minimizer_case(t, rng):
    most = rng.choice([8, 20, 33])
    kw = rng.choice([dict(method="COBYLA", options=dict(maxiter=most)), dict(method="Nelder-Mead", options=dict(maxfev=most)), dict(method="cobyla", tol=1e-9, options=dict(maxiter=most))])
    m = rng.choice([1, 2, 3])
    seed = rng.getrandbits(30)
    random.seed(seed)
    calls = [0]

    def f(p):
        calls[0] += 1
        return float(sum((x - .3) ** 2 for x in np.atleast_1d(p)))
    vqe.get_scipy_minimizer(**kw)(f, m)
    t.check(calls[0] <= most + 1, "the objective is evaluated more often than the method's options allow", calls=calls[0], options=kw)
    t.ev("minimizer")
    t.key("minimizer", repr(kw), m, seed)
    t.sample = f"{kw}"


def backend_case(t, rng):
    made = [0]

    class Own(NumPyBackend):
        def __init__(self):
            made[0] += 1
            super().__init__()
    n = 3
    BlueqatGlobalSetting.register_backend("u06_backend", Own)
    try:
        cs = [add(rng, Circuit(n), n) for _ in range(2)]
        default = rng.random() < .5
        for c in cs:
            if default:
                c.set_default_backend("u06_backend")
                t.ev("default_elsewhere")
        kw = {} if default else dict(backend="u06_backend")
        for c in cs:
            made[0] = 0
            for _ in range(rng.choice([2, 4])):
                rng.choice([lambda: c.run(**kw), lambda: c.make_cache(**kw), lambda: c.run(shots=2, returns="statevector", **kw), lambda: c.run_with_u06_backend()])()
                if rng.random() < .3:
                    add(rng, c, n)
            t.check(made[0] <= 1, "a circuit makes its backend more than once", made=made[0])
            made[0] = 0
            d = c.copy()
            d.run(**kw)
            t.check(made[0] == 0, "a copy of a circuit makes a backend that the circuit had", made=made[0])
            got, _ = counts(c.copy().run, **kw)
            c.run(**kw)
            got, _ = counts(c.run, **kw)
            t.check(not got["actions"], "a registered backend runs gates again", actions=got["actions"])
            # A run elsewhere leaves the cache alone.
            c.run(backend="numpy")
            c.run(backend=Own())
            got, _ = counts(c.run, **kw)
            t.check(not got["actions"], "a run on another backend costs a circuit its cache", actions=got["actions"])
        t.ev("constructed_once")
        t.key("backend", default, tuple(len(c.ops) for c in cs), repr(cs[0])[:60])
        t.sample = f"registered backend, default={default}"
    finally:
        BlueqatGlobalSetting.unregister_backend("u06_backend")


def case(t, kind):
    dict(history=history, energy=energy, vqe=vqe_case, sampler=sampler_case, minimizer=minimizer_case, backend=backend_case, numba=numba_case)[kind](t, t.rng)
