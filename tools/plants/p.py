import os, sys; sys.path.insert(0, os.path.join(os.getcwd(), "tools", "plants"))
from j import PRE, PRE2, C, N, GA, BB, SY, QA, V, P, W, O
M = '''
import numpy as np
from collections import Counter
from blueqat import Circuit, BlueqatGlobalSetting, pauli, vqe
from blueqat.pauli import X, Y, Z
from blueqat.backends.numpy_backend import NumPyBackend
COUNT = Counter()
DEPTH = [0]
def wrap(f):
    def g(self, *a, **k):
        COUNT["actions"] += not DEPTH[0]
        DEPTH[0] += 1
        try:
            return f(self, *a, **k)
        finally:
            DEPTH[0] -= 1
    return g
for name in dir(NumPyBackend):
    if name.startswith("gate_"):
        setattr(NumPyBackend, name, wrap(getattr(NumPyBackend, name)))
def actions(f, *a, **k):
    COUNT.clear()
    f(*a, **k)
    return COUNT["actions"]
'''
BUGS = [
 dict(id="u06-cache-grown", prop="U06", edits=[(N, '''        if len(self.cache_gates) > len(gates) or \\
''', '''        if len(self.cache_gates) not in (len(gates), len(gates) - 1) or \\
''')], needs="two gates added between two runs", breaks="a cached circuit that grew by more than a gate is run from the start",
  demo=M + '''
c = Circuit(2).h[:].cx[0, 1]
c.run()
c.x[0].y[1]
assert actions(c.run) <= 2
'''),
 dict(id="u06-copy-gates", prop="U06", edits=[(N, '''        copied.cache_gates = self.cache_gates.copy()
''', '''        copied.cache_gates = self.cache_gates.copy()
        if self.cache is not None and len(self.cache) > 4:
            copied.cache = None
''')], needs="a copy of a cached circuit of three qubits or more", breaks="copies run all gates again",
  demo=M + '''
c = Circuit(3).h[:].cx[0, 1]
c.run()
assert actions(c.copy().run) == 0
'''),
 dict(id="u06-ignore-global-drops", prop="U06", edits=[(N, '''        if ignore_global:
            ignore_global_phase(ctx.qubits)
''', '''        if ignore_global:
            ignore_global_phase(ctx.qubits)
            self.__clear_cache()
''')], needs="a run without global phase between others", breaks="the next run starts from the beginning",
  demo=M + '''
c = Circuit(3).h[:].cx[0, 1]
c.run(ignore_global=True)
assert actions(c.run) == 0
'''),
 dict(id="u06-energy-plain-copy", prop="U06", edits=[(V, '''            c = circuit.copy()
            for op in meas.ops:
''', '''            c = circuit.copy(copy_backends=any(op.op != "Z" for op in meas.ops) or len(meas.ops) < 2)
            for op in meas.ops:
''')], needs="an energy with terms ZZ", breaks="the ansatz is run again for each of those terms",
  demo=M + '''
a = vqe.QaoaAnsatz(1.0 * Z[0] * Z[1] + .5 * Z[1] * Z[2], 1)
f = a.get_objective(vqe.non_sampling_sampler)
assert actions(f, [.1, .2]) <= len(a.get_circuit([.1, .2]).ops)
'''),
 dict(id="u06-probs-empty", prop="U06", edits=[(V, '''        if store:
            self._probs = probs
        return probs
''', '''        if store and sampler is not None:
            self._probs = probs
        return probs
''')], needs="a result without sampler asked twice", breaks="probabilities are worked out again at each query",
  demo=M + '''
r = vqe.Vqe(vqe.QaoaAnsatz(1.0 * Z[0], 1), minimizer=lambda f, m: [.1] * m).run()
r.get_probs()
runs = [0]
run = NumPyBackend.run
def counted(self, *a, **k):
    runs[0] += 1
    return run(self, *a, **k)
NumPyBackend.run = counted
r.get_probs()
assert runs[0] == 0
'''),
 dict(id="u06-sparse-again", prop="U06", edits=[(V, '''        if self.sparse is None:
            self.make_sparse()
        return obj_expect
''', '''        if self.sparse is None or self.sparse.shape[0] > 4:
            self.make_sparse()
        return obj_expect
''')], needs="several objectives of one ansatz on three qubits or more", breaks="the matrix is made again for every objective",
  demo=M + '''
a = vqe.QaoaAnsatz(1.0 * Z[0] * Z[2], 1)
a.make_sparse()
m = a.sparse
a.get_objective(None)
assert a.sparse is m
'''),
 dict(id="u06-default-resets", prop="U06", edits=[(C, '''    def make_cache(self, backend=None):
''', '''    def __setattr__(self, name, value):
        if name == "n_qubits" and "n_qubits" in vars(self):
            self._backends = {}
        super().__setattr__(name, value)

    def make_cache(self, backend=None):
''')], needs="a gate added to a cached circuit", breaks="every gate added throws the circuit's backends away",
  demo=M + '''
c = Circuit(2).h[:].cx[0, 1]
c.run()
c.x[0]
assert actions(c.run) <= 1
'''),
 dict(id="u06-shots-from-start", prop="U06", edits=[(N, '''                if ctx.save_cache:
                    self.cache''', '''                if ctx.save_cache and shots == 1:
                    self.cache''')], needs="several shots of a measured circuit", breaks="the gates before the first measurement are run for every shot",
  demo=M + '''
c = Circuit(2).h[:].cx[0, 1].m[0]
n = actions(c.run, shots=20)
assert n <= 2 + 20, n
'''),
 dict(id="u06-init-uncached", prop="U06", edits=[(V, '''        self.init_circuit.make_cache()
''', '''        if mixer is None:
            self.init_circuit.make_cache()
''')], needs="QAOA with a mixer of its own", breaks="the initial circuit is run at every evaluation",
  demo=M + '''
a = vqe.QaoaAnsatz(1.0 * Z[0] * Z[1], 1, init_circuit=Circuit(2).x[0].h[1], mixer=[1.0 * X[0]])
f = a.get_objective(vqe.non_sampling_sampler)
n = actions(f, [.1, .2])
assert n <= len(a.get_circuit([.1, .2]).ops) - 2, n
'''),
 dict(id="u06-circuit-twice", prop="U06", edits=[(V, '''            circuit = self.get_circuit(params)
            circuit.make_cache()
            return self.get_energy_sparse(circuit)
''', '''            self.get_circuit(params).make_cache()
            return self.get_energy_sparse(self.get_circuit(params))
''')], needs="counting the work of an evaluation", breaks="an evaluation makes and runs its circuit twice",
  demo=M + '''
a = vqe.QaoaAnsatz(1.0 * Z[0] * Z[1], 1)
f = a.get_objective(None)
n = actions(f, [.1, .2])
assert n <= len(a.get_circuit([.1, .2]).ops), n
'''),
 dict(id="u06-backend-each", prop="U06", edits=[(C, '''        self._backends[backend_name] = backend()
        return self._backends[backend_name]
''', '''        if backend in (NumPyBackend, SympyBackend, QasmOutputBackend) or not isinstance(backend, type):
            self._backends[backend_name] = backend()
            return self._backends[backend_name]
        return backend()
''')], needs="a registered backend class", breaks="a new backend, without cache, is made for every run",
  demo=M + '''
class Own(NumPyBackend):
    made = 0
    def __init__(self):
        Own.made += 1
        super().__init__()
BlueqatGlobalSetting.register_backend("own_demo", Own)
c = Circuit(2).h[:]
c.run(backend="own_demo")
c.run(backend="own_demo")
assert Own.made == 1, Own.made
'''),
 dict(id="u06-eager-probs", prop="U06", edits=[(V, '''        self._result = VqeResult(self, params, c)
''', '''        self._result = VqeResult(self, params, c)
        self._result.get_probs()
        self._result._probs = None
''')], needs="counting the sampler's calls", breaks="a minimisation samples the final circuit though nobody asked",
  demo=M + '''
calls = [0]
def sampler(c, meas):
    calls[0] += 1
    return vqe.non_sampling_sampler(c, meas)
vqe.Vqe(vqe.QaoaAnsatz(1.0 * Z[0], 1), minimizer=lambda f, m: [.1] * m, sampler=sampler).run()
assert calls[0] == 0, calls
'''),
 dict(id="u06-equal-terms", prop="U06", edits=[(V, '''        for meas in self.hamiltonian.to_expr().simplify():
''', '''        for meas in self.hamiltonian.to_expr():
''')], needs="a Hamiltonian written with like terms", breaks="like terms are sampled separately",
  demo=M + '''
calls = [0]
def sampler(c, meas):
    calls[0] += 1
    return vqe.non_sampling_sampler(c, meas)
class A(vqe.AnsatzBase):
    def get_circuit(self, params):
        return Circuit(2).ry(params[0])[:]
a = A(.5 * Z[0] * Z[1] + .25 * Z[1] * Z[0] + .1 * Z[0], 1)
a.get_objective(sampler)([.2])
assert calls[0] == 2, calls
'''),
]
BUGS = [b for b in BUGS if b]
