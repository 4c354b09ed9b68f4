"""Run by U03 in an interpreter of its own: Blueqat with some optional packages missing.

Reads {"repo", "seed", "missing", "arrive", "steps"} as JSON from stdin, runs features in random order, lets packages arrive
in between, and prints {"events": {...}, "log": [...], "error": null or text} as JSON.
"""
import copy
import json
import math
import os
import pickle
import random
import sys
import traceback
import types

TOP = {"sympy": ["sympy"], "qiskit": ["qiskit", "qiskit_aer"], "numba": ["numba"], "qgate": ["qgate"], "dwave": ["dwave"], "matplotlib": ["matplotlib"]}
BLOCKED = set()
PLOTS = []


class Finder:
    """Packages that are not installed."""

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in BLOCKED:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return None


def stand_in(name):
    from vf import fakenumba, fakeqgate
    if name == "numba":
        fakenumba.install()
    elif name == "qgate":
        fakeqgate.install()
    elif name == "dwave":
        class Solver:
            nodes, undirected_edges = {0, 1}, {(0, 1)}

            def sample_ising(self, linear, quadratic, **kw):
                return types.SimpleNamespace(samples=[[1, -1, 3]])

        class Client:
            from_config = classmethod(lambda cls, **kw: cls())
            get_solver = lambda self: Solver()
        d, c = types.ModuleType("dwave"), types.ModuleType("dwave.cloud")
        d.__path__, c.Client, d.cloud = [], Client, c
        sys.modules.update({"dwave": d, "dwave.cloud": c})
    elif name == "matplotlib":
        m, p = types.ModuleType("matplotlib"), types.ModuleType("matplotlib.pyplot")
        m.__path__, m.pyplot = [], p
        p.plot = lambda *a, **kw: PLOTS.append(a)
        p.show = lambda *a, **kw: PLOTS.append("show")
        sys.modules.update({"matplotlib": m, "matplotlib.pyplot": p})


class Bad(Exception):
    pass


def need(cond, what, **info):
    if not cond:
        raise Bad(what + "".join(f"; {k}={v!r}" for k, v in info.items()))


def features(rng, np, bq):
    """{name: (packages, function)}: the function judges its own result."""
    from blueqat import Circuit, pauli, utils, vqe, wq
    X, Y, Z = pauli.X, pauli.Y, pauli.Z
    kept = Circuit().ry(.5)[0].cx[0, 1]         # one circuit used by every step
    a = rng.uniform(.2, 2.8)
    vec = lambda t: np.array([math.cos(t / 2), 0, 0, math.sin(t / 2)])
    close = lambda u, v: np.allclose(np.asarray(u, dtype=complex), v, atol=1e-8)

    def run():
        need(close(Circuit().ry(a)[0].cx[0, 1].run(), vec(a)), "a circuit's state is wrong")
        need(close(kept.run(), vec(.5)), "a circuit that was used before has another state")
        need(close(kept.copy().run(), vec(.5)) and close(copy.deepcopy(kept).run(), vec(.5)), "a copy has another state")
        need(close((kept + kept.dagger()).run(), [1, 0, 0, 0]), "circuit plus dagger is not the identity")

    def shots():
        need(dict(Circuit(3).x[0, 2].m[:].run(shots=7)) == {"101": 7}, "counts are wrong")

    def text():
        need("OPENQASM" in kept.run(backend="qasm_output") and "cx q[0],q[1];" in kept.to_qasm(), "the OpenQASM text is wrong") if hasattr(kept, "to_qasm") else need("cx q[0],q[1];" in kept.run_with_qasm_output(), "the OpenQASM text is wrong")
        need(close(eval(repr(kept), {"Circuit": Circuit}).run(), vec(.5)), "the printed form denotes another circuit")

    def paulis():
        e = (X[0] * Y[0] + 2 * Z[1]).simplify()
        need(close(e.to_matrix(2), 1j * np.diag([1, -1, 1, -1]) + 2 * np.diag([1, 1, -1, -1])), "a Pauli matrix is wrong")
        need(pickle.loads(pickle.dumps(X[0] * Z[1])) == X[0] * Z[1] and not pauli.is_commutable(X[0], Z[0]), "Pauli objects are wrong")
        c = Circuit(1).h[0]
        (1.0 * Z[0]).get_time_evolution()(c, a)
        need(abs(abs(c.run()[0]) - 2 ** -.5) < 1e-9, "time evolution is wrong")

    def variational():
        r = vqe.Vqe(vqe.QaoaAnsatz(1.0 * Z[0] - .5 * Z[0] * Z[1], 1), minimizer=lambda f, n: [.25] * n if f([.25] * n) < 9 else []).run()
        need(len(r.params) == 2 and abs(sum(r.get_probs().values()) - 1) < 1e-9, "Vqe.run is wrong")
        need(vqe.get_measurement_sampler(20)(Circuit(2).x[1], (0, 1)) == {(0, 1): 1.0}, "a sampler is wrong")

    def anneal():
        o = wq.Opt()
        o.qubo = [[-4.0, 1], [0, -4]]
        o.R, o.ite = .5, 30
        need(o.run() == [1, 1] and abs(o.E[-1] + 7) < 1e-9, "annealing is wrong", got=o.E[-1:])
        need(wq.sel(2, 1)[0][0] == -1 and o.add([[1, 0], [0, 0]]) is o and o.qubo[0][0] == -3, "QUBO builders are wrong")
        need(np.asarray(wq.Opt().add([[-1.0]]).sqa()).shape[1] == 1, "sqa() is wrong")

    def helpers():
        from blueqat.experimental.operations import Ops
        from blueqat.experimental.utils import circuit_to_unitary
        need(utils.to_inttuple("011") == (0, 1, 1), "to_inttuple is wrong")
        need(close(circuit_to_unitary(Ops(1).x[0].to_circuit()), [[0, 1], [1, 0]]), "circuit_to_unitary is wrong")

    def symbolic():
        m = rng.choice([lambda c: c.run(backend="sympy_unitary"), lambda c: c.run_with_sympy_unitary()])(Circuit().ry(a)[0].cx[0, 1])
        w = np.array(m.evalf().tolist(), dtype=complex)
        need(close(w[:, 0], vec(a)), "the symbolic unitary is wrong", got=str(m))

    def symbolic_default():
        c = Circuit().x[0]
        c.set_default_backend("sympy_unitary")
        try:
            need(str(c.run()) == "Matrix([[0, 1], [1, 0]])", "the symbolic unitary is wrong")
        finally:
            c.set_default_backend(None)
            need(close(c.run(), [0, 1]), "a circuit whose default backend was set back has another state")

    def value(m, b):
        return sum(float(m[i][j]) * b[i] * b[j] for i in range(len(b)) for j in range(len(b)))

    def qs():
        need([str(q) for q in wq.make_qs(3)] == ["q0", "q1", "q2"], "make_qs is wrong")

    def optx():
        need(str(wq.optx("q0**2 + 3*q1")) in ("q0 + 3*q1", "3*q1 + q0"), "optx is wrong", got=str(wq.optx("q0**2 + 3*q1")))

    def optm():
        need([value(wq.optm("q0*q1 - 2*q1", 2), b) for b in ((0, 1), (1, 0), (1, 1))] == [-2, 0, -1], "optm is wrong")

    def add_text():
        o = wq.Opt().add("q0*q1 - 2*q1")
        need([value(o.qubo, b) for b in ((0, 1), (1, 0), (1, 1))] == [-2, 0, -1], "add() of text is wrong")

    def to_matrix():
        need([value(wq.Opt().qubo_to_matrix("q0*q1 - 2*q1"), b) for b in ((0, 1), (1, 0), (1, 1))] == [-2, 0, -1], "qubo_to_matrix is wrong")

    def expand():
        need(str(wq.Opt().expand_qubo("q0**3*q1")) == "q0*q1", "expand_qubo is wrong")

    class Sums:
        """Expressions for functions that need them: present only with the package."""
        free_symbols = ()

    def expr(f):
        if "sympy" in BLOCKED:
            return Sums()
        import sympy
        return f(sympy)

    def separation():
        e = expr(lambda s: s.Add(s.Mul(*s.symbols("q0 q1 q2")), s.Symbol("q0")))
        s = e.free_symbols and __import__("sympy").symbols("s0 s1 s2")
        new, cons, mapping = wq.nbody_separation(e, s)
        need(len(mapping) == 1 and "s0" in str(new), "nbody_separation is wrong")

    def qn():
        e = expr(lambda s: s.Add(s.Mul(*s.symbols("q0 q1")), s.Mul(-2, s.Symbol("q1"))))
        m = wq.qn_to_qubo(e)
        need([value(m, b) for b in ((0, 1), (1, 0), (1, 1))] == [-2, 0, -1], "qn_to_qubo is wrong")

    def numba():
        got = rng.choice([lambda c: c.run(backend="numba"), lambda c: c.run_with_numba()])(kept)
        need(close(got, vec(.5)), "the Numba backend's state is wrong")

    def numba_new():
        need(dict(Circuit(2).x[1].m[:].run(shots=3, backend="numba")) == {"01": 3}, "the Numba backend's counts are wrong")

    def qgate():
        got = rng.choice([lambda c: c.run(backend="qgate"), lambda c: c.run_with_qgate()])(Circuit(2).x[1])
        need(close(got, [0, 0, 1, 0]), "the Qgate backend's state is wrong", got=got)

    def dw():
        o = wq.Opt()
        o.qubo = [[1.0, 0], [0, -1]]
        need(o.dw() == [1, 0], "dw() is wrong")

    def plot():
        o = wq.Opt()
        o.E = [3, 2, a]
        del PLOTS[:]
        o.plot()
        need(PLOTS == [([3, 2, a],), "show"], "plot() does not draw the energies", got=PLOTS)

    def qiskit_exception():
        e = kept.run_with_ibmq(returns="_exception")
        if "qiskit" in BLOCKED:
            need(isinstance(e, ImportError), "'_exception' does not return what the import raised", got=repr(e))
        else:
            need(e is None, "'_exception' is not None although Qiskit can be imported", got=repr(e))

    def qiskit_circuit():
        c = Circuit().x[0].cx[0, 1].run(backend="ibmq", returns="qiskit_circuit")
        need(c.num_qubits == 2 and c.count_ops().get("cx") == 1, "the Qiskit circuit is wrong")

    def qiskit_sampler():
        class Job:
            def result(self):
                return types.SimpleNamespace(get_counts=lambda: {"10": 4})
        import importlib
        s = vqe.get_qiskit_sampler(object(), shots=4)
        q = importlib.import_module("qiskit")
        old = q.__dict__.get("execute")
        q.execute = lambda *a, **k: Job()
        try:
            need(s(Circuit(2).x[1], (1, 0)) == {(1, 0): 1.0}, "the Qiskit sampler is wrong")
        finally:
            if old is not None:
                q.execute = old
            else:
                del q.execute

    core = [run, shots, text, paulis, variational, anneal, helpers]
    sym = [symbolic, symbolic_default, qs, optx, optm, add_text, to_matrix, expand, separation, qn]
    out = {f.__name__: ((), f) for f in core}
    out.update({f.__name__: (("sympy",), f) for f in sym})
    out.update({f.__name__: (("numba",), f) for f in (numba, numba_new)})
    out.update(qgate=(("qgate",), qgate), dw=(("dwave",), dw), plot=(("matplotlib",), plot))
    out["qiskit_exception"] = ((), qiskit_exception)
    for f in (qiskit_circuit, qiskit_sampler):
        out[f.__name__] = (("qiskit",), f)
    return out


def main():
    job = json.load(sys.stdin)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path[:0] = [job["repo"], here]
    events, log = {}, []
    ev = lambda k: events.__setitem__(k, events.get(k, 0) + 1)
    error = None
    try:
        import numpy as np
        gone = set(job["missing"])
        BLOCKED.update(x for p in gone for x in TOP[p])
        sys.meta_path.insert(0, Finder())
        for p in ("numba", "qgate", "dwave", "matplotlib"):
            if p not in gone:
                stand_in(p)
        try:
            import blueqat as bq
        except ImportError as e:
            raise Bad(f"Blueqat cannot be imported without an optional package: {e!r}")
        if not os.path.abspath(bq.__file__).startswith(os.path.abspath(job["repo"]) + os.sep):
            raise RuntimeError(f"blueqat imported from {bq.__file__}")
        ev("imported")
        rng = random.Random(job["seed"])
        random.seed(job["seed"])
        np.random.seed(job["seed"] % 2 ** 32)
        fs = features(rng, np, bq)
        names = [n for n in fs if not ("qiskit" in n and not job["qiskit"])]
        core = [n for n in names if not fs[n][0]]
        tried = set()
        for step in range(job["steps"]):
            if gone and rng.random() < job["arrive"]:
                p = rng.choice(sorted(gone))
                gone.discard(p)
                BLOCKED.difference_update(TOP[p])
                if p not in ("sympy", "qiskit"):
                    stand_in(p)
                log.append(f"{p} is installed")
                ev("arrived")
            name = rng.choice(names if rng.random() < .8 else core)
            packages, f = fs[name]
            lacking = [p for p in packages if p in gone]
            log.append(name + (f" without {'+'.join(lacking)}" if lacking else ""))
            try:
                f()
            except ImportError as e:
                if not lacking:
                    raise Bad(f"{name}: {e!r} although {' and '.join(packages) or 'nothing optional'} is needed")
                if not any(p in str(e).lower() for p in lacking):
                    raise Bad(f"{name}: the ImportError names none of {lacking}: {e!r}")
                ev("refused_" + lacking[0])
            except Bad:
                raise
            except Exception as e:
                raise Bad(f"{name}: {e!r}" + (f" instead of ImportError, without {lacking}" if lacking else f" with {sorted(gone)} missing"))
            else:
                if lacking:
                    raise Bad(f"{name}: no ImportError without {lacking}")
                for p in packages:
                    ev("used_" + p)
                    if (p, "refused") in tried:
                        ev("used_after_arrival")
                if not packages:
                    ev("core_checked")
                    if gone:
                        ev("core_without_packages")
            for p in lacking:
                tried.add((p, "refused"))
    except Bad as e:
        error = str(e)
    except Exception:
        print(json.dumps(dict(events=events, log=log, error=None, broken=traceback.format_exc())))
        return
    print(json.dumps(dict(events=events, log=log, error=error, broken=None)))


if __name__ == "__main__":
    main()
