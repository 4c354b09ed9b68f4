"""C11: independent objects may be used from several threads: every interleaving gives what each computation gives alone."""
import collections

import numpy as np
from blueqat import Circuit, vqe, wq
from blueqat.experimental.operations import Ops
from blueqat.experimental.utils import circuit_to_unitary
from blueqat.utils import ignore_global_phase, to_inttuple

from .. import gen, paulis, qubo, ref, threads

RULE = ("2-4 jobs on objects of their own (circuits of the same size, copies of one circuit that has been run, Pauli expressions, ansaetze, QUBO problems, exports), each first run alone, then in "
        "threads: under a scheduler that switches threads at seeded line boundaries of blueqat's code (density 0.3% to 30%), and under the interpreter's own preemption every microsecond; "
        "distinct = sequence of (thread, thread, line) switches")
REQUIRED = ["interleaved", "switches", "free_runs", "same_kind", "mixed_kinds", "job_state", "job_shots", "job_copies", "job_born", "job_pauli", "job_matrix", "job_qasm", "job_symbolic", "job_energy", "job_qaoa",
            "job_sample", "job_qubo", "job_symqubo", "job_anneal", "job_ops", "job_dagger", "job_text"]
ASSUMES = ["switch points are line boundaries of blueqat's Python code plus the interpreter's own preemption points; NumPy, SciPy and SymPy are thread-safe for separate objects"]


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [("line", 900 * k), ("free", 250 * k)]


KINDS = [k[4:] for k in REQUIRED if k.startswith("job_")]
SLOW = {"symbolic", "symqubo"}


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-9, atol=1e-9)
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, complex, np.number)):
        return abs(a - b) <= 1e-9 * (1 + abs(a))
    return a == b


def make(t, kind, n, shared):
    """(job, expected or None): a function without arguments that uses objects of its own."""
    rng = t.rng
    if kind in ("state", "dagger", "qasm", "text", "ops"):
        names = None
        if kind == "ops":
            names = ["x", "h", "t", "s", "cx", "cz", "rx", "u3", "phase", "swap", "ccx"]
        if kind == "qasm":
            names = ["x", "h", "t", "sdg", "cx", "rx", "u1", "u3", "cu1", "swap", "ccx"]
        ops = gen.scramble(rng, n) + gen.gen_ops(rng, n, rng.randint(2, 8), names)
        ops, n = gen.make_valid(ops, n)

        def state():
            c = gen.build(Circuit, n, ops)
            a = c.run()
            c.x[0]
            return [a, c.run(), c.run(shots=2, returns="statevector"), c.n_qubits]

        def dagger():
            c = gen.build(Circuit, n, ops)
            d = c.dagger()
            return [d.run(), len(d.ops), c.run(ignore_global=True)]

        def qasm():
            c = gen.build(Circuit, n, ops)
            return [c.m[:].to_qasm(), c.to_qasm(output_prologue=False)]

        def text():
            c = gen.build(Circuit, n, ops)
            return [repr(c), str(c.copy()), [str(g) for g in c.ops], c.n_qubits]

        def asops():
            o = Ops()
            for op in ops:
                o = gen.apply_op(o, op)
            return [o.to_circuit().run(), repr(o), circuit_to_unitary(gen.build(Circuit, min(n, 2), [])), len((o + o).ops)]
        exp = None
        if kind == "state":
            v = ref.run(ops, n)
            w = ref.run(ops + [("x", (), 0)], n)
            exp = [v, w, w, n]
        return dict(state=state, dagger=dagger, qasm=qasm, text=text, ops=asops)[kind], exp
    if kind == "shots":
        ops = [(g, (), tg) for g, tg in [rng.choice([("x", rng.randrange(n)), ("cx", tuple(rng.sample(range(n), 2))), ("swap", tuple(rng.sample(range(n), 2))), ("y", rng.randrange(n)), ("z", slice(None))])
                                         for _ in range(rng.randint(2, 7))]] + [("m", (), slice(None))]
        return lambda: dict(gen.build(Circuit, n, ops).run(shots=3)), None
    if kind == "born":
        order = rng.sample(range(n), n)

        def born():
            c = Circuit(n).h[order[0]]
            for a, b in zip(order, order[1:]):
                c.cx[a, b]
            r = c.m[:].run(shots=6)
            v, r2 = c.run(shots=1, returns="statevector_and_shots")
            (word,) = r2
            return [sum(r.values()), set(r) <= {"0" * n, "1" * n}, abs(abs(v[int(word[::-1], 2)]) - 1) < 1e-9]
        return born, [6, True, True]
    if kind == "copies":
        if "base" not in shared:
            ops = gen.scramble(rng, n)
            c = gen.build(Circuit, n, ops)
            c.run()
            shared["base"] = ops, c
        ops, c = shared["base"]
        mine, (more, n2) = c.copy(), gen.make_valid(gen.gen_ops(rng, n, rng.randint(1, 5)), n)

        def copies():
            d = mine.copy()
            for op in more:
                gen.apply_op(d, op)
            return [d.run(), mine.copy().run(), d.run()]
        e = ref.run(ops + more, n2)
        return copies, [e, ref.run(ops, n), e]
    if kind in ("pauli", "matrix"):
        a, b = (paulis.gen_expr(rng, n, rng.randint(1, 4), dyadic=True) for _ in range(2))
        fmt = rng.choice([None, "csc", "csr", "coo", "dia", "lil"])

        def arith():
            p = (a * b - 2 * b + 1).simplify()
            return [paulis.matrix_of(p, n), a == b, repr(a), (a + b).n_qubits, a.is_commutable_with(b)]

        def matrix():
            m = (a + b).to_matrix(n, sparse=fmt)
            return [np.asarray(m if fmt is None else m.todense()), a.to_matrix(n), [x.to_matrix(n) for x in b.terms[:2]]]
        return (arith if kind == "pauli" else matrix), None
    if kind == "symbolic":
        ops = gen.make_valid(gen.gen_ops(rng, 2, 3, ["x", "h", "rx", "rz", "cx", "phase"]), 2)[0]
        ops = [(g, tuple(float(p) for p in ps), tg) for g, ps, tg in ops]
        return lambda: np.array(gen.build(Circuit, 2, ops).to_unitary().evalf(), dtype=complex), None
    if kind in ("energy", "qaoa", "sample"):
        m = rng.randint(1, min(n, 3))
        if kind == "energy":
            h = paulis.gen_expr(rng, m, 3, dyadic=True)
            h = h + paulis.X[m - 1] * 1.5
            ops = gen.scramble(rng, m)

            class A(vqe.AnsatzBase):
                def get_circuit(self, params):
                    return gen.build(Circuit, m, ops).ry(params[0])[:]

            def energy():
                a = A(h, 1)
                exact = a.get_objective()
                return [exact([.3]), a.get_objective(vqe.non_sampling_sampler)([.3]), exact([.4])]
            return energy, None
        z = [rng.randint(-3, 3) for _ in range(m)]

        def qaoa():
            from blueqat.pauli import Z
            h = sum((k * Z[i] for i, k in enumerate(z)), 0.5 * Z[0] * Z[m - 1] + 1)
            a = vqe.QaoaAnsatz(h, 2)
            f = a.get_objective()
            r = vqe.Vqe(a, minimizer=lambda obj, k: [.1, .2, .3, .4][:k]).run()
            return [f([.2, .4, .1, .3]), f([.5, .1, .1, .3]), a.get_circuit([.1] * 4).run(), r.get_probs(), list(r.params)]

        def sample():
            c = gen.build(Circuit, m, ops)
            e = vqe.expect(c.run(), range(m))
            v = vqe.non_sampling_sampler(c, range(m))
            d = vqe.get_state_vector_sampler(50)(Circuit(m).x[:], range(m))
            k = vqe.get_measurement_sampler(5)(Circuit(m).x[:], range(m))
            return [e, v, {x: p for x, p in d.items() if p}, k]
        ops = gen.scramble(rng, m)
        return (qaoa if kind == "qaoa" else sample), None
    if kind == "qubo":
        q = qubo.gen_qubo(rng, n)

        def prob():
            o = wq.Opt()
            o.add(np.array(q, dtype=float))
            o.qi()
            p = wq.pauli(q)
            m = np.diag(p.to_matrix(n)) if hasattr(p, "to_matrix") else p
            return [np.array(o.J), o.ep, np.asarray(m), wq.sel(n, 1, [0]), wq.mul(list(range(n)), [2] * n), wq.net([[0, n - 1]] if n > 1 else [], n), wq.sqr([1] * n), wq.counter([[0, 1], [1, 1], [0, 1]])]
        return prob, None
    if kind == "symqubo":
        poly = qubo.gen_poly(rng, 3, 2, rng.randint(3, 5), constant=False)
        s = qubo.text(rng, poly)

        def sym():
            import sympy
            e = sympy.sympify(s)
            out = [sorted(map(str, sympy.expand(wq.optx(e)).free_symbols))]
            if isinstance(sympy.expand(e), sympy.Add):
                out.append(wq.qn_to_qubo(sympy.expand(e)))
            return out
        return sym, None
    if kind == "anneal":
        q = qubo.frozen(qubo.gen_qubo(rng, n))

        def anneal():
            o = wq.Opt()
            o.qubo, o.ite, o.R = q, 4, .4
            res = o.run(shots=2)
            return [len(o.E), all(abs(e[-1] - qubo.energy(q, b)) < 1e-6 * qubo.scale(q) and len(b) == n and set(b) <= {0, 1} for e, b in zip(o.E, res))]
        return anneal, [2, True]
    raise KeyError(kind)


def case(t, kind):
    rng = t.rng
    k = rng.choice([2, 2, 2, 3, 4])
    n = rng.choice([2, 2, 3, 4])
    pool = [x for x in KINDS if kind == "line" or x not in SLOW or rng.random() < .3]
    if rng.random() < .7:
        kinds = [rng.choice(pool)] * k
        t.ev("same_kind")
    else:
        kinds = [rng.choice(pool) for _ in range(k)]
        t.ev("mixed_kinds")
    shared = {}
    jobs, expected = [], []
    for x in kinds:
        job, exp = make(t, x, n, shared)
        alone = job()
        t.check(exp is None or same(exp, alone), "a computation run alone is wrong", kind=x, got=alone, expected=exp)
        jobs.append(job)
        expected.append(alone)
        t.ev("job_" + x)
    t.sample = f"{k} threads: {kinds}, n={n}"
    if kind == "line":
        density = rng.choice([.003, .01, .03, .1, .3])
        outs, switches = threads.controlled(rng, jobs, density)
        t.ev("switches", len(switches))
        if switches:
            t.ev("interleaved")
            t.key(tuple(switches))
        how = f"{len(switches)} switches at line boundaries, the last ones {switches[-6:]}"
    else:
        outs = threads.free(jobs)
        t.ev("free_runs")
        t.key(tuple(kinds), n, t.idx)
        how = "the interpreter's own preemption"
    for x, out, exp in zip(kinds, outs, expected):
        if out[0] == "raised":
            t.fail("a computation raised although it does not when run alone; other threads were using other objects", kind=x, kinds=kinds, error=repr(out[1]), how=how)
        t.check(same(exp, out[1]), "a computation gave another result than alone, while other threads were using other objects", kind=x, kinds=kinds, got=out[1], alone=exp, how=how)
    t.ev("jobs_judged", len(jobs))
