"""U05: memory is released; what a process holds does not grow with the number of calls, gates, shots or evaluations."""
import copy
import gc
import pickle
import random
import time
import tracemalloc

import numpy as np
from blueqat import BlueqatGlobalSetting, Circuit, pauli, utils, vqe, wq
from blueqat.experimental.operations import Ops

from .. import apisweep, fakenumba, fakeqgate, gen, meter

RULE = ("small uses of the whole public interface on ever new objects and inputs, and long-lived objects used again and again, refusals included, while allocator blocks, instances, elements reachable from Blueqat's modules, "
        "threads and open files are read after garbage collection; peaks of traced memory of runs with few and many gates, shots and evaluations; memory held by small results; distinct = functions or objects and parameters")
NEW = ["run", "cache", "shots", "pairs", "reset", "dagger", "default", "qasm", "unitary", "unitary_odd", "ops", "numeric_unitary", "registry", "newgate", "newbackend", "roundtrips", "product", "powers", "formats", "commutators",
       "queries", "evolve", "expect", "samplers", "sparse", "qaoa", "mixer", "result", "scipy_vqe", "builders", "rbm", "to_pauli", "anneal", "one_answer", "sqa", "qubo_qaoa", "added", "added_text", "fit", "symbolic", "separated",
       "quadratic", "bits"]
HELD = ["circuit", "cached_circuit", "measured_circuit", "other_backends", "refused_circuit", "refused_run", "expr", "refused_expr", "ansatz", "sparse_ansatz", "vqe", "vqe_result", "minimizer", "sampler", "refused_vqe", "opt",
        "opt_qaoa", "opt_expand", "opt_fit", "registered_gate", "registered_macro", "refused_registration", "operations", "copies", "child_circuit", "chain"]
SLOW = {"unitary", "powers", "anneal", "unitary_odd", "fit", "qubo_qaoa", "scipy_vqe", "vqe", "minimizer", "opt", "opt_qaoa", "opt_fit", "other_backends", "symbolic", "opt_expand"}
SYMPY = {"unitary", "unitary_odd", "symbolic", "separated", "added_text", "opt_expand", "other_backends", "quadratic", "qubo_qaoa"}      # SymPy itself keeps a few blocks per call
PEAKS = ["gates", "shots", "evaluations", "minimized", "sparse_matrix", "samples", "repeated", "fallbacks", "numba_gates", "copies_of_cached"]
RESULTS = ["expect", "counter", "qasm", "sampler", "probs", "pairs", "copy", "dagger", "circuit", "state", "energy", "vqe_result", "ignored_phase"]
REQUIRED = ["new_" + s for s in NEW] + ["held_" + s for s in HELD] + ["peak_" + s for s in PEAKS] + ["kept_" + s for s in RESULTS] + ["iterations", "readings"]
ASSUMES = ["caches of a bounded size are no growth: what seems to grow is followed for up to 2500 further calls", "SymPy's own caches are emptied before every reading", "memory of NumPy and SciPy is traced by their tracemalloc hooks"]
CASE_CPU_S = 240
SMALL = 400000       # the interpreter keeps up to some thousand freed small objects for later use


def plan(tier):
    k = 1 if tier == "quick" else 8
    return [("new", len(NEW) * k), ("held", len(HELD) * k), ("mixed", 6 * k), ("peak", len(PEAKS) * 2 * k), ("kept", len(RESULTS) * k)]


def prepare():
    fakenumba.install()
    fakeqgate.install()


def watch(t, what, use, count, held=()):
    """Calls use(i) with growing i; fails when a meter keeps growing with the number of calls."""
    i = 0

    def phase(m):
        nonlocal i
        for _ in range(m):
            use(i)
            i += 1
        t.ev("iterations", m)

    phase(count)
    got = [meter.read(*held)]
    for _ in range(3):
        phase(count)
        got.append(meter.read(*held))
    t.ev("readings", len(got))
    least = dict(blocks=(12 if isinstance(what, str) and what in SYMPY else .7) * count, instances=.3 * count, elements=.3 * count, threads=2, files=2)
    grows = [k for k in least if all(b[k] - a[k] >= least[k] for a, b in zip(got, got[1:]))]
    if not grows:
        return
    # It may be a cache that is about to be full.
    start, end = time.process_time(), i + 2500
    more = max(count, 100)
    while grows and i < end and time.process_time() - start < 60:
        phase(more)
        got.append(meter.read(*held))
        grows = [k for k in grows if got[-1][k] - got[-2][k] >= least[k] * more / count * .8]
    if grows:
        t.fail("what the process holds grows with every call", what=what, meters=grows, calls=i, each=count, readings=[{k: r[k] for k in grows} for r in got])
    t.ev("bounded_cache")


def peak(f):
    """(peak, kept, result) of f in bytes above what was there before."""
    gc.collect()
    mine = not tracemalloc.is_tracing()
    if mine:
        tracemalloc.start()
    try:
        before = tracemalloc.get_traced_memory()[0]
        tracemalloc.reset_peak()
        r = f()
        top = tracemalloc.get_traced_memory()[1] - before
        gc.collect()
        return top, tracemalloc.get_traced_memory()[0] - before, r
    finally:
        if mine:
            tracemalloc.stop()


def grow(rng, n, m, c=None, names=None, p=0):
    c = Circuit(n) if c is None else c
    for _ in range(m):
        a, b, d = rng.sample(range(n), 3)
        x, y, z = (rng.uniform(-3, 3) for _ in range(3))
        g = rng.randrange(9)
        if names:
            g = rng.choice(names)
        if g == 0:
            c.h[a]
        elif g == 1:
            c.cx[a, b]
        elif g == 2:
            c.u3(x, y, z)[a]
        elif g == 3:
            c.crx(x)[a, b]
        elif g == 4:
            c.swap[a, b]
        elif g == 5:
            c.rz(x)[a, b]
        elif g == 6:
            c.ccx[a, b, d]
        elif g == 7:
            c.rxx(x)[a, b]
        else:
            c.t[a].cz[a, b]
        if rng.random() < p:
            c.m[a]
    return c


def ising(rng, n):
    return sum((rng.uniform(.2, 1) * pauli.Z[i] * pauli.Z[(i + 1) % n] + rng.uniform(.2, 1) * pauli.Z[i] for i in range(n)), rng.uniform(.2, 1) * pauli.Z[0])


def refused(t, f, *a, **kw):
    """A call that is likely refused (what is refused, and how, is for other properties to say)."""
    try:
        f(*a, **kw)
        t.ev("accepted")
    except Exception:
        t.ev("refused")


# --------------------------------------------------------------------------- long-lived objects
def long_lived(t, name, rng):
    """(objects, use)"""
    X, Y, Z = pauli.X, pauli.Y, pauli.Z
    n = rng.choice([3, 4])
    c = grow(rng, n, 6)
    angle = lambda i: .001 * i + .01
    scripted = lambda f, m: min(([.1 * (j + 1)] * m for j in range(2)), key=f)
    if name == "circuit":
        return (c,), lambda i: [c.run(), c.run(ignore_global=True), c.to_qasm(), c.n_qubits, repr(c), c.run(returns="statevector")]
    if name == "cached_circuit":
        def use(i):
            c.make_cache()
            c.run()
            c.run(shots=2, returns="statevector")
        return (c,), use
    if name == "measured_circuit":
        c.m[0].h[0].m[:]
        return (c,), lambda i: [c.run(shots=3), c.run(), c.run(shots=2, returns="statevector_and_shots")]
    if name == "other_backends":
        d = Circuit(2).h[0].cx[0, 1].rz(.3)[1]
        e = Circuit(2).h[:].m[:]
        return (d, e), lambda i: [d.run(backend="numba"), e.run(backend="numba", shots=2), d.run(backend="sympy_unitary") if i % 20 == 0 else 0, d.run(backend="qasm_output"), e.run(backend="qgate", shots=2), fakeqgate.LOG.clear(), d.run(backend="numpy")]
    if name == "refused_circuit":
        tries = [lambda d: d.cx[0, 0], lambda d: d.no_such_gate, lambda d: d.rx(1j)[0], lambda d: d.x["text"], lambda d: d.u3(1), lambda d: d.x[1.5], lambda d: d.cx[0], lambda d: d + 3, lambda d: d.rx()[0]]
        sure = []
        for f in tries:
            d = c.copy()
            try:
                f(d)
            except Exception:
                sure.append(f)

        def use(i):
            for f in sure:
                refused(t, f, c)
            c.run()
        return (c,), use
    if name == "refused_run":
        def use(i):
            refused(t, c.run, returns=f"unknown{i}")
            refused(t, c.run, backend=f"unknown{i}")
            refused(t, c.set_default_backend, f"unknown{i}")
            refused(t, c.run, returns="shots", shots="text")
        return (c,), use
    if name == "expr":
        e = .5 * X[0] * Y[1] + .25 * Z[n - 1] + 1
        term = X[0] * Z[1]
        return (e, term), lambda i: [e * e, (e + angle(i)).simplify(), e - term, e.to_matrix(n), e.to_matrix(n, sparse="csr"), term.to_matrix(), repr(e), e.is_all_terms_commutable(), pauli.commutator(e, term), e ** 2,
                                     term.get_time_evolution()(Circuit(n), angle(i)), e == term, e.n_qubits, e.commutator(term.to_expr())]
    if name == "refused_expr":
        e = .5 * X[0] * Y[1] + .25 * Z[1]

        def use(i):
            refused(t, lambda: e + f"x{i}")
            refused(t, lambda: e ** -1)
            refused(t, lambda: e.to_matrix(1))
            refused(t, lambda: X[0] ** "text")
            refused(t, lambda: e.to_matrix(sparse=f"no{i}"))
        return (e,), use
    if name in ("ansatz", "sparse_ansatz"):
        a = vqe.QaoaAnsatz(ising(rng, n), 2)
        if name == "sparse_ansatz":
            a.make_sparse()
        f = a.get_objective(vqe.non_sampling_sampler if name == "ansatz" else None)
        return (a, f), lambda i: [f([angle(i), .2, .3, angle(i + 7)]), a.get_circuit([angle(i), .1, .2, .3]).run(), a.get_energy_sparse(a.get_circuit([angle(i)] * 4)) if name == "sparse_ansatz" else
                                  a.get_energy(a.get_circuit([angle(i)] * 4), vqe.non_sampling_sampler)]
    if name in ("vqe", "vqe_result", "minimizer"):
        v = vqe.Vqe(vqe.QaoaAnsatz(ising(rng, 3), 1), minimizer=scripted, sampler=rng.choice([None, vqe.non_sampling_sampler, vqe.get_state_vector_sampler(20)]))
        if name == "vqe":
            return (v,), lambda i: [v.run(), v.result, v.run(verbose=False).most_common()]
        r = v.run()
        if name == "vqe_result":
            return (v, r), lambda i: [r.most_common(2), r.probs() if callable(r.probs) else r.probs, r.get_probs(rerun=True), r.get_probs(vqe.non_sampling_sampler, store=False), r.circuit.run()]
        m = vqe.get_scipy_minimizer(method="COBYLA", options={"maxiter": 5})
        return (m,), lambda i: m(lambda p: (p[0] - angle(i)) ** 2 + p[1] ** 2, 2)
    if name == "sampler":
        s, s2 = vqe.get_state_vector_sampler(10), vqe.get_measurement_sampler(10)
        return (s, s2, c), lambda i: [s(c, (0, 1)), s2(c, (0, n - 1)), vqe.non_sampling_sampler(c, (1,)), s(Circuit(n).rx(angle(i))[0], (0,)), s2(Circuit(n).rx(angle(i))[0], (0,))]
    if name == "refused_vqe":
        a = vqe.QaoaAnsatz(ising(rng, 3), 1)
        v = vqe.Vqe(a, minimizer=lambda f, m: f(["text"]))

        def use(i):
            refused(t, v.run)
            refused(t, a.get_circuit, [])
            refused(t, a.make_sparse, f"no{i}")
        return (a, v), use
    if name in ("opt", "opt_qaoa", "opt_expand"):
        o = wq.Opt()
        o.qubo = [[rng.uniform(-1, 1) if r <= s else 0 for s in range(3)] for r in range(3)]
        o.ite, o.R, o.tro = 4, .5, 2
        import sympy
        q = sympy.symbols("q0 q1")
        if name == "opt_qaoa":
            return (o,), lambda i: o.qaoa(step=1)
        if name == "opt_expand":
            return (o,), lambda i: [o.expand_qubo(q[0] ** 2 * q[1] + i % 5), o.qubo_to_matrix("q0*q1 - 2*q1"), wq.optx("q0**2 + q1")]

        def use(i):
            o.run(shots=2, sampler="fast")
            o.run(shots=2, sampler="normal")
            o.sa()
            o.E = []        # the list of energies is the user's to read and to clear
            o.sqa()
            o.reJ()
        return (o,), use
    if name == "opt_fit":
        o = wq.Opt()
        o.setRBM([2, 1])

        def use(i):
            o.fit([[1, 0], [0, 1]], shots=1, targetT=3.0, epoch=1, verbose=False)
        return (o,), use
    if name == "registered_gate":
        from blueqat import gate

        class Twice(gate.OneQubitGate):
            lowername = "metered_gate"

            def fallback(self, n_qubits):
                return self._make_fallback_for_target_iter(n_qubits, lambda q: [gate.XGate(q), gate.HGate(q)])

        def use(i):
            BlueqatGlobalSetting.register_gate("metered_gate", Twice)
            Circuit(2).metered_gate[0].run()
            BlueqatGlobalSetting.register_gate("metered_gate", Twice, allow_overwrite=True)
            c.run()
            BlueqatGlobalSetting.unregister_gate("metered_gate")
        return (c, Twice), use
    if name == "registered_macro":
        def use(i):
            BlueqatGlobalSetting.register_macro("metered_macro", lambda circ, q: circ.x[q])
            Circuit(2).metered_macro(0).run()
            BlueqatGlobalSetting.unregister_macro("metered_macro")
        return (c,), use
    if name == "refused_registration":
        def use(i):
            refused(t, BlueqatGlobalSetting.unregister_macro, f"metered{i}")
            refused(t, BlueqatGlobalSetting.unregister_gate, f"metered{i}")
            refused(t, BlueqatGlobalSetting.unregister_backend, f"metered{i}")
            refused(t, BlueqatGlobalSetting.register_macro, "x", lambda circ: circ)
            refused(t, BlueqatGlobalSetting.set_default_backend, f"metered{i}")
        return (), use
    if name == "operations":
        o = Ops(n).h[:].cx[0, 1].rz(.2)[0]
        return (o,), lambda i: [o.to_circuit().run(), o.dagger(), repr(o), o + o if hasattr(o, "__add__") else 0]
    if name == "copies":
        c.make_cache()
        return (c,), lambda i: [c.copy().run(), copy.copy(c).run(), copy.deepcopy(c).run(), c.copy(copy_backends=True).rx(angle(i))[0].run(), c.dagger(copy_backends=True).run(), (c + c).run(), repr(c)]
    if name == "child_circuit":
        def use(i):
            d = Circuit(n)
            d += c
            d.rx(angle(i))[0]
            d.make_cache()
            c.run()
            d.run()
            utils.to_inttuple("01")
        return (c,), use
    if name == "chain":
        # Every object is made from the one before it.
        box = dict(c=c, e=.5 * X[0] * Y[1] + .25 * Z[n - 1] + 1, t=X[0] * Z[1], o=Ops(n).h[:].cx[0, 1], g=c.ops[0], a=vqe.QaoaAnsatz(ising(rng, 3), 1))
        c.make_cache()

        def use(i):
            how = i % 6
            d = box["c"]
            d = d.copy() if how == 0 else d.dagger(copy_backends=bool(i % 4)) if how == 1 else copy.deepcopy(d) if how == 2 else pickle.loads(pickle.dumps(d)) if how == 3 else d + Circuit() if how == 4 else Circuit() + d
            d.run()
            box["c"] = d
            box["e"] = [lambda e: e * 1, lambda e: -(-e), lambda e: e.simplify(), lambda e: e + 0, copy.deepcopy, lambda e: (e - 1) + 1][how](box["e"]).simplify()
            box["t"] = [lambda x: x * 1, lambda x: -(-x), lambda x: x.simplify(), lambda x: x * pauli.I, copy.deepcopy, lambda x: x.to_term()][how](box["t"]).simplify()
            box["o"] = box["o"].dagger()
            box["g"] = box["g"].dagger()
            box["a"] = vqe.QaoaAnsatz(box["a"].hamiltonian, 1, init_circuit=box["a"].init_circuit.copy())
            repr(box)
        return (box,), use
    raise KeyError(name)


# --------------------------------------------------------------------------- peaks and kept memory
def peaks(t, name, rng):
    n = rng.choice([11, 12, 13])
    state = 16 << n
    if name in ("gates", "fallbacks", "repeated"):
        names = [2, 3, 4, 6, 7] if name == "fallbacks" else None
        few, many = rng.choice([10, 20]), rng.choice([200, 400])
        if name == "repeated":
            c = grow(rng, n, 12)

            def again(m):
                for i in range(m):
                    c.run() if i % 2 else Circuit(n).h[:].rx(.1 * i)[0].run()
            a, b = peak(lambda: again(3)), peak(lambda: again(40))
        else:
            c1, c2 = grow(rng, n, few, names=names), grow(rng, n, many, names=names)
            a, b = peak(c1.run), peak(c2.run)
        t.check(max(a[0], b[0]) <= 16 * state + SMALL, "a run needs many times the memory of its state vector", few=a[0] / state, many=b[0] / state)
        t.check(b[0] - a[0] <= 3 * state + SMALL + 1000 * many, "the memory a run needs grows with the number of gates or of runs", few=a[0] / state, many=b[0] / state)
        t.check(b[1] <= 4 * state + SMALL + 1000 * many, "a circuit keeps more than its result and its cache", kept=b[1] / state)
        return (n, few, many)
    if name == "shots":
        c = grow(rng, n, 15, p=.3).m[0]
        a, b = peak(lambda: c.run(shots=2)), peak(lambda: c.run(shots=30))
        t.check(b[0] - a[0] <= 3 * state + SMALL, "the memory of a run grows by states with the number of shots", few=a[0] / state, many=b[0] / state)
        return (n,)
    if name == "numba_gates":
        n = 8
        state = 16 << n
        c1, c2 = grow(rng, n, 4), grow(rng, n, 40)
        c1.copy().run(backend="numba")
        a, b = peak(lambda: c1.run(backend="numba")), peak(lambda: c2.run(backend="numba"))
        t.check(b[0] - a[0] <= 6 * state + 100000, "the memory a run on numba needs grows with the number of gates", few=a[0] / state, many=b[0] / state)
        return (n,)
    if name == "evaluations":
        n = rng.choice([11, 12])
        state = 16 << n
        a = vqe.QaoaAnsatz(ising(rng, n), 1)
        if rng.random() < .5:
            a.make_sparse()
        f = a.get_objective(rng.choice([vqe.non_sampling_sampler, vqe.get_state_vector_sampler(20)]) if a.sparse is None else None)
        f([.1, .2])
        p = [peak(lambda: [f([.01 * i, .2]) for i in range(m)]) for m in (2, 30)]
        t.check(p[1][0] - p[0][0] <= 6 * state + SMALL, "the memory of evaluating an objective grows with the number of evaluations", few=p[0][0] / state, many=p[1][0] / state)
        return (n,)
    if name == "minimized":
        n = 12
        state = 16 << n
        h = ising(rng, n)

        def go(m):
            def minimizer(f, k):
                return min(([.05 * i] * k for i in range(m)), key=f)
            return vqe.Vqe(vqe.QaoaAnsatz(h, 1), minimizer=minimizer).run().params
        go(2)
        p = [peak(lambda: go(m)) for m in (3, 40)]
        t.check(p[1][0] - p[0][0] <= 8 * state + SMALL, "the memory of a VQE grows with the number of evaluations", few=p[0][0] / state, many=p[1][0] / state)
        return (n,)
    if name == "sparse_matrix":
        n = rng.choice([11, 12])
        h = sum((rng.uniform(.2, 1) * pauli.X[i] * pauli.X[(i + 1) % n] + .5 * pauli.Z[i] for i in range(n)), 1.0 * pauli.Z[0])
        fmt = rng.choice(["csc", "csr", "coo"])
        h.to_matrix(n, sparse=fmt)
        top, kept, m = peak(lambda: h.to_matrix(n, sparse=fmt))
        t.check(top <= 6 * (2 * n + 1) * 32 * 2 ** n, "a sparse matrix needs memory like a dense one", format=fmt, peak=top, dense=16 << 2 * n)
        return (n, fmt)
    if name == "samples":
        c = grow(rng, n, 10)
        meas = tuple(rng.sample(range(n), 3))
        s = rng.choice([vqe.get_state_vector_sampler(50), vqe.non_sampling_sampler])
        s(c, meas)
        p = [peak(lambda: [s(c, meas) for _ in range(m)]) for m in (2, 30)]
        t.check(p[1][0] - p[0][0] <= 4 * state + SMALL, "the memory of sampling grows by states with the number of calls", few=p[0][0] / state, many=p[1][0] / state)
        return (n,)
    if name == "copies_of_cached":
        c = grow(rng, n, 10)
        c.run()
        p = peak(lambda: [c.copy() for _ in range(20)])
        t.check(p[0] <= 2 * state + SMALL, "a copy without backends takes the memory of a state", each=p[0] / 20 / state)
        return (n,)
    raise KeyError(name)


def kept(t, name, rng):
    """Several results held at once take no more memory than they show."""
    n, many = rng.choice([11, 12]), 8
    state = 16 << n
    meas = tuple(rng.sample(range(n), 2))
    base = grow(rng, n, 8)
    base.run()
    new = lambda i: grow(random.Random(i), n, 5)
    h = ising(rng, n)
    minimizer = lambda f, m: min(([.1 * (j + 1)] * m for j in range(2)), key=f)
    make, most = dict(
        expect=(lambda i: vqe.expect(new(i).run(), meas), 0), counter=(lambda i: new(i).m[meas].run(shots=3), 0), qasm=(lambda i: new(i).to_qasm(), 0), sampler=(lambda i: vqe.get_state_vector_sampler(9)(new(i), meas), 0),
        probs=(lambda i: vqe.non_sampling_sampler(new(i), meas), 0), pairs=(lambda i: new(i).m[0].run(shots=2, returns="statevector_and_shots"), 1), copy=(lambda i: base.copy().x[0], 0), dagger=(lambda i: base.dagger(), 0),
        circuit=(lambda i: (lambda c: (c.run(), c)[1])(new(i)), 2), state=(lambda i: new(i).run(), 1), energy=(lambda i: vqe.QaoaAnsatz(h, 1).get_energy(new(i), vqe.non_sampling_sampler), 0),
        vqe_result=(lambda i: vqe.Vqe(vqe.QaoaAnsatz(h, 1), minimizer=minimizer, sampler=vqe.non_sampling_sampler).run().params, 0),
        ignored_phase=(lambda i: new(i).run(ignore_global=True), 1))[name]
    make(999)
    _, size, r = peak(lambda: [make(i) for i in range(many)])
    t.check(size <= many * ((most + .5) * state + 12000), "small results keep large memory alive", result=name, states_each=size / many / state, allowed=most + .5)
    return (n,)


def case(t, kind):
    rng = t.rng
    if kind == "new":
        name = NEW[t.idx % len(NEW)]
        off = rng.getrandbits(30)
        watch(t, name, lambda i: apisweep.calls(random.Random(off + i))[name](), 25 if name in SLOW else rng.choice([60, 100]))
        t.ev("new_" + name)
        t.key(name, off)
        t.sample = f"{name} on new objects"
    elif kind == "held":
        name = HELD[t.idx % len(HELD)]
        objects, use = long_lived(t, name, rng)
        watch(t, name, use, 25 if name in SLOW else rng.choice([60, 100]), objects)
        t.ev("held_" + name)
        t.key(name, rng.getrandbits(30))
        t.sample = f"{name} used again and again"
    elif kind == "mixed":
        names = rng.sample([s for s in NEW if s not in SLOW | SYMPY], 3)
        held = rng.choice([s for s in HELD if s not in SLOW | SYMPY])
        objects, use = long_lived(t, held, rng)
        off = rng.getrandbits(30)

        def all_of_them(i):
            use(i)
            f = apisweep.calls(random.Random(off + i))
            for s in names:
                f[s]()
        watch(t, names + [held], all_of_them, 60, objects)
        t.ev("mixed")
        t.key(tuple(names), held)
        t.sample = f"{names} and {held}"
    elif kind == "peak":
        name = PEAKS[t.idx % len(PEAKS)]
        how = peaks(t, name, rng)
        t.ev("peak_" + name)
        t.key(name, how, rng.getrandbits(30))
        t.sample = f"peak: {name} {how}"
    else:
        name = RESULTS[t.idx % len(RESULTS)]
        how = kept(t, name, rng)
        t.ev("kept_" + name)
        t.key(name, how, rng.getrandbits(30))
        t.sample = f"kept: {name} {how}"
