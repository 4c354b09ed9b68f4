"""Small valid uses of the whole public interface, on new objects, for monitors that watch what calls leave behind (U04, U05).

calls(rng) -> {name: function}; a function's result is plain data that depends only on rng and on the seeds of the global generators.
"""
import copy
import math
import pickle

import numpy as np


def calls(rng):
    from blueqat import Circuit, BlueqatGlobalSetting, pauli, utils, vqe, wq
    from blueqat.experimental.operations import Ops
    from blueqat.experimental.utils import circuit_to_unitary
    X, Y, Z, I = pauli.X, pauli.Y, pauli.Z, pauli.I
    a, b, c = (rng.uniform(.1, 3) for _ in range(3))
    n = rng.choice([2, 3, 4])
    k = rng.randrange(n)
    j = (k + 1) % n
    odd = rng.choice([math.sqrt(2) * math.pi, math.e, math.sqrt(3) / 2 * math.pi, math.pi / 7, 1e-3, a])
    circuit = lambda: Circuit(n).h[:].u3(a, b, c)[k].cx[k, j].ry(b)[j].crz(c)[j, k].swap[k, j].rz(a)[::2]
    clifford = lambda: Circuit(n).h[:-1].cx[k, j].s[:].cz[k, j].y[k]
    ising = lambda: sum((b * (i + 1) * Z[i] * Z[(i + 1) % n] for i in range(n - 1)), a * Z[0]) + c
    mixed = lambda: a * X[0] * Y[1] - b * Z[n - 1] + c * I * X[0]
    scripted = lambda f, m: min(([.1 * (i + 1)] * m for i in range(3)), key=f)
    matrix = lambda: [[round(math.sin(3 * r + 7 * s + a), 3) if r <= s else 0 for s in range(n)] for r in range(n)]
    fmt = rng.choice(["csc", "csr", "coo", "dia", "lil", "bsr", "dok"])
    dense = lambda m: np.asarray(m.todense() if hasattr(m, "todense") else m)

    def value(q, bits):
        return sum(q[r][s] * bits[r] * bits[s] for r in range(len(bits)) for s in range(len(bits)))

    def opt(**kw):
        o = wq.Opt()
        o.qubo, o.ite, o.R = matrix(), 6, .6
        for name, x in kw.items():
            setattr(o, name, x)
        return o

    def symbols(poly):
        import sympy
        return {str(s): .3 + .2 * int(str(s)[1:]) for s in sympy.sympify(poly).free_symbols}

    def number(poly):
        import sympy
        v = symbols(poly)
        return float(sympy.sympify(poly).subs(v))

    def registry():
        name = f"swept{rng.randrange(3)}"
        BlueqatGlobalSetting.register_macro(name, lambda circ, t: circ.x[t].h[t])
        try:
            return getattr(Circuit(2), name)(1).run()
        finally:
            BlueqatGlobalSetting.unregister_macro(name)

    def newgate():
        from blueqat import gate

        class Twice(gate.OneQubitGate):
            lowername = "swept_gate"

            def fallback(self, n_qubits):
                return self._make_fallback_for_target_iter(n_qubits, lambda t: [gate.XGate(t), gate.HGate(t)])
        BlueqatGlobalSetting.register_gate("swept_gate", Twice)
        try:
            return Circuit(2).swept_gate[1].run()
        finally:
            BlueqatGlobalSetting.unregister_gate("swept_gate")

    def newbackend():
        from blueqat.backends.numpy_backend import NumPyBackend
        BlueqatGlobalSetting.register_backend("swept_backend", NumPyBackend)
        try:
            return circuit().run(backend="swept_backend")
        finally:
            BlueqatGlobalSetting.unregister_backend("swept_backend")

    def grown():
        d = circuit()
        d.make_cache()
        out = [d.run()[:3]]
        for i in range(6):
            d.rx(.1 * i)[i % n].cz[k, j]
            out.append(d.run()[:3])
        return out

    def evolve():
        d = circuit()
        for t in (a * X[0] * Z[1], b * Y[0] * Y[1]):
            t.get_time_evolution()(d, c)
        (X[0] * Y[1]).append_to_circuit(d)
        (1.0 * Z[1]).append_to_circuit(d, simplify=False)
        return d.run()

    def sparse():
        ansatz = vqe.QaoaAnsatz(ising(), 1)
        ansatz.make_sparse(fmt)
        f = ansatz.get_objective(None)
        return [f([.1, .2]), ansatz.get_energy_sparse(ansatz.get_circuit([.3, .1])), ansatz.get_energy(ansatz.get_circuit([.2, .1]), vqe.non_sampling_sampler)]

    def qaoa():
        steps = rng.choice([1, 2, 4])
        ansatz = vqe.QaoaAnsatz(ising(), steps)
        f = ansatz.get_objective(None)
        ps = [[.25, *(round(rng.uniform(0, 1), 3) for _ in range(2 * steps - 2)), .5] for _ in range(3)]      # alike at both ends
        return [f(p) for p in ps + [np.array(p) for p in ps]]

    def mixer():
        ansatz = vqe.QaoaAnsatz(ising(), 2, init_circuit=Circuit(n).x[k], mixer=[.5 * X[i] * X[(i + 1) % n] for i in range(n - 1)])
        return ansatz.get_circuit([.1, .2, .3, .4]).run()

    def result():
        r = vqe.Vqe(vqe.QaoaAnsatz(ising(), 1), minimizer=scripted, sampler=rng.choice([None, vqe.non_sampling_sampler, vqe.get_state_vector_sampler(40)])).run()
        return [list(r.params), [p for _, p in r.most_common(3)][:1], r.get_probs(), r.get_probs(vqe.non_sampling_sampler, store=False), r.get_probs(rerun=True)]

    def scipy_vqe():
        m = vqe.get_scipy_minimizer(method="COBYLA", options={"maxiter": 6})
        return list(vqe.Vqe(vqe.QaoaAnsatz(ising(), 1), minimizer=m).run().params)

    def separated():
        import sympy
        q = sympy.symbols("q0 q1 q2 q3")
        new, cons, mapping = wq.nbody_separation(q[0] * q[1] * q[2] + 2 * q[1] * q[2] - q[3] + q[0] * q[1], sympy.symbols("s0 s1 s2 s3"))
        return [len(mapping) > 0, len(sympy.Add.make_args(new)) > 0]

    def roundtrips():
        d = circuit()
        e = mixed()
        return [copy.copy(d).run(), copy.deepcopy(d).run(), pickle.loads(pickle.dumps(d)).run(), eval(repr(d), {"Circuit": Circuit}).run(), dense(pickle.loads(pickle.dumps(e)).to_matrix(n)), hash(X[1]) == hash(X(1)),
                dense(eval(repr(e), vars(pauli)).to_matrix(n))]

    out = dict(
        run=lambda: [circuit().run(), circuit().run(ignore_global=True), circuit().run(returns="statevector"), circuit().run(backend="numpy")],
        cache=grown,
        shots=lambda: [dict(circuit().m[:].run(shots=20)), dict((clifford().m[k] + circuit().m[:]).run(shots=9)), dict(circuit().m[k, j].run(shots=5, returns="shots"))],
        pairs=lambda: [[u, dict(s)] for u, s in [circuit().m[k].run(shots=2, returns="statevector_and_shots")]],
        reset=lambda: circuit().reset[k].run(),
        dagger=lambda: [(circuit() + circuit().dagger()).run(), circuit().m[k].dagger(ignore_measurement=True).run(), circuit().dagger(copy_backends=True).run()],
        default=lambda: (lambda d: [d.set_default_backend("numpy"), d.get_default_backend_name(), d.run()])(circuit()),
        qasm=lambda: circuit().m[:].to_qasm(),
        unitary=lambda: np.array(clifford().to_unitary().evalf().tolist(), dtype=complex),
        unitary_odd=lambda: np.array(Circuit(1).rx(odd)[0].rz(odd / 2)[0].to_unitary(ignore_global=rng.random() < .5).evalf().tolist(), dtype=complex),
        ops=lambda: [Ops(n).h[:].cx[k, j].to_circuit().run(), Ops(n).s[0].h[:].dagger().to_circuit().run(), repr(Ops(n).x[k].rz(a)[0])],
        numeric_unitary=lambda: circuit_to_unitary(circuit()),
        registry=registry, newgate=newgate, newbackend=newbackend, roundtrips=roundtrips,
        product=lambda: dense((mixed() * mixed() - ising() / 2 + 1).simplify().to_matrix(n)),
        powers=lambda: [dense((.5 * X[0] + .5 * Z[0]) .to_expr().__pow__(p).simplify().to_matrix(1)) for p in (0, 1, 5, rng.choice([12, 60]))] + [dense(((X[0] * Y[1]) ** rng.choice([3, 70])).to_matrix(2))],
        formats=lambda: [dense(mixed().to_matrix(n, sparse=fmt)), dense((X[0] * Z[1]).to_matrix(sparse=fmt)), dense(Y[1].to_matrix(n)), X.matrix if hasattr(X, "matrix") else 0],
        commutators=lambda: [dense(pauli.commutator(X[0], Y[0]).to_matrix(1)), pauli.is_commutable(ising(), ising()), mixed().is_commutable_with(ising()), ising().is_all_terms_commutable(), dense(mixed().commutator(ising()).to_matrix(n))],
        queries=lambda: [mixed().n_qubits, mixed().max_n(), list(map(complex, mixed().coeffs())), list((X[0] * Z[2]).n_iter()), (X[0] * I).n_qubits, pauli.Expr.zero().is_identity, pauli.qubo_bit(1).n_qubits, repr(pauli.pauli_from_char("Y", 3)), repr(pauli.term_from_chars("XIZ"))],
        evolve=evolve,
        expect=lambda: [vqe.expect(circuit().run(), (k, j)), vqe.non_sampling_sampler(circuit(), (j,)), vqe.sparse_expectation(ising().to_matrix(n, sparse="csr"), circuit().run())],
        samplers=lambda: [vqe.get_state_vector_sampler(30)(circuit(), (k, j)), vqe.get_measurement_sampler(30)(circuit(), (j,)), vqe.get_measurement_sampler(30, {"backend": "numpy"})(circuit(), ())],
        sparse=sparse, qaoa=qaoa, mixer=mixer, result=result, scipy_vqe=scipy_vqe,
        builders=lambda: [wq.sel(n, 1), wq.sel(n, 2, [0, 1]), wq.mul([1, 2], [3, 4]), wq.sqr([1, -2, 1]), wq.net([[0, 1]], n), dict(wq.counter([[1, 0], [0, 1], [1, 0]])), wq.diag([1, 2]), wq.zeros(2), wq.rands(2), wq.dbms([2, 1]), wq.sigm(a)],
        rbm=lambda: [wq.rbm_hmodel([1, 0], wq.dbms([2, 2])), wq.rbm_data_qubo([1, 0], wq.dbms([2, 2]))],
        to_pauli=lambda: dense(wq.pauli(matrix()).to_matrix(n)),
        anneal=lambda: (lambda o: [o.run(shots=2, sampler=rng.choice(["normal", "fast"])), o.E[-1][-1]])(opt()),
        one_answer=lambda: (lambda o: [o.sa(), o.E[-1], o.J is not None])(opt()),
        sqa=lambda: (lambda o: [o.sqa(), o.E[-1]])(opt(tro=2, ite=3)),
        qubo_qaoa=lambda: len(opt(qubo=[[1.0, .5], [0, -1.0]]).qaoa(step=1).params),
        added=lambda: (lambda o: value(o.add([[1.0] * n] * n, M=2).qubo, [1] * n))(opt()),
        added_text=lambda: (lambda o: value(o.add("q0*q1 - 2*q1").qubo, [1] * len(o.qubo)))(wq.Opt()),
        fit=lambda: (lambda o: [o.setRBM([2, 1]), o.fit([[1, 0], [0, 1]], shots=2, targetT=3.0, epoch=2, verbose=False), np.array(o.qubo)])(opt()),
        symbolic=lambda: [number(wq.optx("q0**2 + 3*q1")), wq.optm("q0*q1 - 2*q1", 2), [str(q) for q in wq.make_qs(2)], number(wq.Opt().expand_qubo("q0**3*q1 + q1**2")), wq.Opt().qubo_to_matrix("q0*q1 - 2*q1")],
        separated=separated,
        quadratic=lambda: (lambda s: wq.qn_to_qubo(s[0] * s[1] * 2 - s[1] * 3))(wq.make_qs(2)),
        bits=lambda: [utils.to_inttuple("0110"), utils.to_inttuple({"01": 2}), dict(utils.to_inttuple(circuit().m[:].run(shots=5))), utils.ignore_global_phase(circuit().run())],
    )
    return out
