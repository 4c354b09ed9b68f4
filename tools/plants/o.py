import os, sys; sys.path.insert(0, os.path.join(os.getcwd(), "tools", "plants"))
from j import PRE, PRE2, C, N, GA, BB, SY, QA, V, P, W, O
U = "blueqat/utils.py"
M = '''
import gc, sys, tracemalloc
import numpy as np
from blueqat import Circuit, BlueqatGlobalSetting, pauli, vqe, wq, utils
from blueqat.pauli import X, Y, Z
def blocks():
    if "sympy" in sys.modules:
        from sympy.core.cache import clear_cache
        clear_cache()
    gc.collect(); gc.collect()
    return sys.getallocatedblocks()
def steady(f, m=300, least=.5):
    """f(i) leaves nothing behind: at least one of four rounds adds less than half a block per call."""
    n, seen = 0, []
    for r in range(5):
        for _ in range(m):
            f(n); n += 1
        seen.append(blocks())
    grown = [b - a for a, b in zip(seen, seen[1:])]
    assert min(grown) < m * least, grown
def peak(f):
    gc.collect()
    tracemalloc.start()
    b = tracemalloc.get_traced_memory()[0]
    r = f()
    p = tracemalloc.get_traced_memory()[1] - b
    gc.collect()
    k = tracemalloc.get_traced_memory()[0] - b
    tracemalloc.stop()
    return p, k, r
'''
BUGS = [
 dict(id="u05-evo-memo", prop="U05", edits=[(P, '''        ops = term.ops
        def append_to_circuit(circuit, t):
''', '''        ops = term.ops
        if (ops, coeff) in _evolutions:
            return _evolutions[ops, coeff]
        def append_to_circuit(circuit, t):
'''), (P, '''                elif op.op == "Y":
                    circuit.rx(-half_pi)[n]
        return append_to_circuit
''', '''                elif op.op == "Y":
                    circuit.rx(-half_pi)[n]
        _evolutions[ops, coeff] = append_to_circuit
        return append_to_circuit
'''), (P, '''half_pi = ''', '''_evolutions = {}
half_pi = ''')], needs="many different coefficients", breaks="every time evolution is kept for ever",
  demo=M + '''
steady(lambda i: ((.1 + .001 * i) * X[0] * Y[1]).get_time_evolution()(Circuit(2), .3))
'''),
 dict(id="u05-kept-states", prop="U05", edits=[(N, '''                run_single_gate(gate)
                if ctx.save_cache:
''', '''                run_single_gate(gate)
                history.append(ctx.qubits)
                if ctx.save_cache:
'''), (N, '''        ctx = _NumPyBackendContext(n_qubits)

        def run_single''', '''        ctx = _NumPyBackendContext(n_qubits)
        history = []

        def run_single'''), (N, '''                    self.cache = ctx.qubits.copy()
''', '''                    self.cache = history[-1] = ctx.qubits.copy()
''')], needs="a long circuit on many qubits", breaks="a run keeps the state after every gate until it ends",
  demo=M + '''
def long(m):
    c = Circuit(12)
    for i in range(m):
        c.h[i % 12].rz(.1)[0]
    return peak(c.run)[0] / (16 << 12)
long(3)
assert long(200) - long(10) < 6, (long(10), long(200))
'''),
 dict(id="u05-objective-log", prop="U05", edits=[(V, '''        def objective(params):
            circuit = self.get_circuit(params)
            circuit.make_cache()
''', '''        def objective(params, seen=[]):
            circuit = self.get_circuit(params)
            circuit.make_cache()
            seen.append(circuit)
''')], needs="an objective evaluated often", breaks="the objective keeps every circuit it made, caches included",
  demo=M + '''
a = vqe.QaoaAnsatz(1.0 * Z[0] + Z[0] * Z[1], 1)
f = a.get_objective(vqe.non_sampling_sampler)
steady(lambda i: f([.001 * i, .2]), 60)
'''),
 dict(id="u05-best-circuit", prop="U05", edits=[(V, '''        params = self.minimizer(objective, self.ansatz.n_params)
''', '''        trace = []
        inner = objective
        def objective(params):
            val = inner(params)
            trace.append((val, np.array(params), self.ansatz.get_circuit(params).run()))
            return val
        params = self.minimizer(objective, self.ansatz.n_params)
''')], needs="a minimisation with many evaluations on many qubits", breaks="the state vectors of all evaluations are kept until the minimisation ends",
  demo=M + '''
n = 12
h = sum((.3 * Z[i] * Z[(i + 1) % n] for i in range(n)), 1.0 * Z[0])
def go(m):
    return vqe.Vqe(vqe.QaoaAnsatz(h, 1), minimizer=lambda f, k: min(([.02 * i] * k for i in range(m)), key=f)).run().params
go(2)
a, b = (peak(lambda: go(m))[0] / (16 << n) for m in (3, 40))
assert b - a < 15, (a, b)
'''),
 dict(id="u05-counter-ctx", prop="U05", edits=[(N, '''        "shots": lambda ctx: ctx.shots_result,
''', '''        "shots": lambda ctx: _Shots(ctx.shots_result, ctx),
'''), (N, '''class _NumPyBackendContext:
''', '''class _Shots(Counter):
    """The counts of a run."""

    def __init__(self, counts=(), ctx=None):
        super().__init__(counts)
        self._ctx = ctx

    def __reduce__(self):
        return Counter, (dict(self),)


class _NumPyBackendContext:
''')], needs="several histograms held at once", breaks="every histogram keeps the state vectors of its run alive",
  demo=M + '''
n = 12
_, k, r = peak(lambda: [Circuit(n).h[:].m[0].run(shots=2) for i in range(10)])
assert k < 5 * (16 << n), k / (16 << n)
'''),
 dict(id="u05-view-result", prop="U05", edits=[(N, '''        self.qubits = np.zeros(2**n_qubits, dtype=DEFAULT_DTYPE)
        self.qubits_buf = np.zeros(2**n_qubits, dtype=DEFAULT_DTYPE)
''', '''        self.qubits, self.qubits_buf = np.zeros((2, 2**n_qubits), dtype=DEFAULT_DTYPE)
''')], needs="state vectors held", breaks="a state vector returned is a view that keeps twice its memory",
  demo=M + '''
n = 12
_, k, r = peak(lambda: [Circuit(n).h[:].run(ignore_global=True) for i in range(10)])
assert k < 15 * (16 << n), k / (16 << n)
'''),
 dict(id="u05-registry-graveyard", prop="U05", edits=[(C, '''            raise ValueError(f"Macro '{name}' is not registered.")
        del GLOBAL_MACROS[name]
''', '''            raise ValueError(f"Macro '{name}' is not registered.")
        _UNREGISTERED.append(GLOBAL_MACROS.pop(name))
'''), (C, '''GLOBAL_MACROS = {}
''', '''GLOBAL_MACROS = {}
_UNREGISTERED = []
''')], needs="macros registered and unregistered again and again", breaks="unregistered macros are kept for ever",
  demo=M + '''
def f(i):
    BlueqatGlobalSetting.register_macro("demo_macro", lambda c: c.x[0])
    BlueqatGlobalSetting.unregister_macro("demo_macro")
steady(f)
'''),
 dict(id="u05-refusal-log", prop="U05", edits=[(C, '''            if backend is None:
                raise ValueError(f"Backend {backend_name} doesn't exist.")
''', '''            if backend is None:
                error = ValueError(f"Backend {backend_name} doesn't exist.")
                _ERRORS.append(error)
                raise error
'''), (C, '''GLOBAL_MACROS = {}
''', '''GLOBAL_MACROS = {}
_ERRORS = []
''')], needs="refused calls repeated", breaks="errors, with the frames they refer to, are kept for ever",
  demo=M + '''
c = Circuit(2).h[0]
def f(i):
    try:
        c.run(backend="none")
    except ValueError:
        pass
steady(f)
'''),
 dict(id="u05-dense-first", prop="U05", edits=[(P, '''        m.eliminate_zeros()
        if sparse is None:
            return m.toarray()
        return _sparse_types[sparse](m)


def qubo_bit''', '''        m = m.toarray()
        if sparse is None:
            return m
        return _sparse_types[sparse](m)


def qubo_bit''')], needs="a sparse matrix on many qubits", breaks="a sparse matrix is made from the dense one",
  demo=M + '''
n = 11
h = sum((.3 * X[i] * X[(i + 1) % n] for i in range(n)), 1.0 * Z[0])
p = peak(lambda: h.to_matrix(n, sparse="csr"))[0]
assert p < 4 ** n * 8, p
'''),
 dict(id="u05-atexit", prop="U05", edits=[(BB, '''    def _get_action(self, gate):
        try:
            return getattr(self, "gate_" + gate.lowername)
        except AttributeError:
            return None
''', '''    def _get_action(self, gate):
        try:
            actions = _ACTIONS[id(self)]
        except KeyError:
            actions = _ACTIONS[id(self)] = (self, {})
        name = gate.lowername
        if name not in actions[1]:
            actions[1][name] = getattr(self, "gate_" + name, None)
        return actions[1][name]
'''), (BB, '''class Backend''', '''_ACTIONS = {}

class Backend''')], needs="many circuits", breaks="every backend object ever used, with its cache, is kept for ever",
  demo=M + '''
steady(lambda i: Circuit(2).h[0].run(), 100)
'''),
 dict(id="u05-copy-origin", prop="U05", edits=[(C, '''        copied = Circuit(self.n_qubits, self.ops.copy())
        if copy_backends:
            copied._backends''', '''        copied = Circuit(self.n_qubits, self.ops.copy())
        copied._origin = self
        if copy_backends:
            copied._backends'''), (C, '''        self._default_backend = None
        self.n_qubits = n_qubits
''', '''        self._default_backend = None
        self._origin = None
        self.n_qubits = n_qubits
''')], needs="a circuit copied from the copy again and again", breaks="copies keep all their ancestors",
  demo=M + '''
box = [Circuit(2).h[0]]
def f(i):
    box[0] = box[0].copy()
steady(f)
'''),
 dict(id="u05-angle-memo", prop="U05", edits=[(SY, '''    def _one_qubit_gate_args_theta(self, gate, ctx):
        theta = _angle_simplify(gate.theta)
        matrix_of_gate = self.SYMPY_GATE[gate.uppername].subs(self.theta, theta)
''', '''    def _one_qubit_gate_args_theta(self, gate, ctx):
        key = gate.uppername, float(gate.theta) if isinstance(gate.theta, (int, float)) else gate.theta
        if key not in _MATRICES:
            _MATRICES[key] = self.SYMPY_GATE[gate.uppername].subs(self.theta, _angle_simplify(gate.theta))
        matrix_of_gate = _MATRICES[key]
'''), (SY, '''class SympyBackend(''', '''_MATRICES = {}

class SympyBackend(''')], needs="many different angles in to_unitary", breaks="the matrix of every angle is kept for ever",
  demo=M + '''
steady(lambda i: Circuit(1).rx(.1 + .001 * i)[0].to_unitary(), 60, 15)
'''),
 dict(id="u05-anneal-samples", prop="U05", edits=[(W, '''            qtemp = (np.asarray(q,int)+1)/2
            qq.append([int(s) for s in qtemp])
''', '''            qtemp = (np.asarray(q,int)+1)/2
            qq.append([int(s) for s in qtemp])
            self.samples[tuple(qq[-1]), EE[-1], len(self.samples)] = EE
'''), (W, '''        #: List of energies
        self.E = []
''', '''        #: List of energies
        self.E = []
        self.samples = {}
''')], needs="one Opt run again and again", breaks="the energies of all earlier anneals are kept",
  demo=M + '''
o = wq.Opt()
o.qubo, o.ite, o.R = [[1.0, 0], [0, -1]], 2, .3
steady(lambda i: o.run(), 40)
'''),
 dict(id="u05-thread", prop="U05", edits=[(V, '''        params = self.minimizer(objective, self.ansatz.n_params)
''', '''        started = threading.Event()
        threading.Thread(target=started.wait, daemon=True).start()
        params = self.minimizer(objective, self.ansatz.n_params)
'''), (V, '''from functools import reduce
''', '''from functools import reduce
import threading
''')], needs="many minimisations", breaks="each minimisation leaves a waiting thread",
  demo=M + '''
import threading
a = vqe.QaoaAnsatz(1.0 * Z[0], 1)
for i in range(5):
    vqe.Vqe(a, minimizer=lambda f, k: [.1] * k).run()
assert threading.active_count() < 4, threading.active_count()
'''),
 dict(id="u05-expect-views", prop="U05", edits=[(V, '''    cnt = defaultdict(float)
    for i, v in enumerate(qubits):
        p = v.real ** 2 + v.imag ** 2
        if p != 0.0:
            cnt[i & mask] += p
    return {to_key(k): v for k, v in cnt.items()}
''', '''    cnt = defaultdict(float)
    for i, v in enumerate(qubits):
        p = v.real ** 2 + v.imag ** 2
        if p != 0.0:
            cnt[i & mask] += p
    _EXPECTED[meas, mask, hash(tuple(cnt.values()))] = cnt
    return {to_key(k): v for k, v in cnt.items()}
'''), (V, '''def expect(qubits, meas):
''', '''_EXPECTED = {}

def expect(qubits, meas):
''')], needs="many different states", breaks="the probabilities of every state are kept for ever",
  demo=M + '''
steady(lambda i: vqe.expect(Circuit(1).rx(.001 * i)[0].run(), (0,)))
'''),
 dict(id="u05-release-order", prop="U05", edits=[(N, '''        for _ in range(shots):
            ctx.prepare(self.cache)
''', '''        before = []
        for _ in range(shots):
            before.append(ctx.qubits.copy())
            ctx.prepare(self.cache)
''')], needs="many shots on many qubits", breaks="a run keeps the state of every shot until it ends",
  demo=M + '''
c = Circuit(12).h[:].m[0].h[0].m[:]
c.run(shots=1)
a, b = (peak(lambda: c.run(shots=m))[0] / (16 << 12) for m in (2, 40))
assert b - a < 10, (a, b)
'''),
]
BUGS = [b for b in BUGS if b]
