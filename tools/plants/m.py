import os, sys; sys.path.insert(0, os.path.join(os.getcwd(), "tools", "plants"))
from j import PRE, PRE2, C, N, GA, BB, SY, QA, V, P, W, O
U = "blueqat/utils.py"; NL = "blueqat/backends/_numba_backend_impl.py"; QG = "blueqat/backends/qgate_backend.py"
INT = PRE2 + '''
import sys, blueqat, os
HERE = os.path.dirname(blueqat.__file__)
def interrupted(make, f, judge, most=300):
    """f(make()) is interrupted at every start of a function of blueqat; judge looks at the object afterwards."""
    for k in range(1, most):
        x = make()
        n = [0]
        def tracer(fr, ev, arg):
            if ev == "call" and fr.f_code.co_filename.startswith(HERE):
                n[0] += 1
                if n[0] == k:
                    sys.settrace(None)
                    raise KeyboardInterrupt(fr.f_code.co_name)
        done = False
        sys.settrace(tracer)
        try:
            f(x)
            done = True
        except KeyboardInterrupt:
            pass
        finally:
            sys.settrace(None)
        judge(x)
        if done:
            assert n[0] < k, "an interrupt was swallowed"
            return
'''
BUGS = [
 dict(id="c13-join-loop", prop="C13", edits=[(C, '''        self.ops += other.ops
        return self
''', '''        for op in tuple(other.ops):
            self.ops.append(op)
        return self
''')], needs="an interrupt while circuits are joined in place", breaks="half of the other circuit's gates have been added",
  demo=INT + '''
class Slow(list):
    def __iter__(self):
        for i, x in enumerate(list.__iter__(self)):
            yield x
c = Circuit(2).x[0]
d = Circuit(2).h[0].cx[0, 1].h[1]
n = [0]
class L(list):
    def append(self, x):
        n[0] += 1
        if n[0] == 2:
            raise KeyboardInterrupt
        list.append(self, x)
c.ops = L(c.ops)
try:
    c += d
except KeyboardInterrupt:
    pass
assert len(c.ops) in (1, 4), len(c.ops)
'''),
 dict(id="c13-dagger-broad", prop="C13", edits=[(C, '''            except ValueError:
                if not ignore_measurement:''', '''            except BaseException as e:
                if not ignore_measurement:
                    if not isinstance(e, ValueError):
                        raise''')], needs="an interrupt during dagger(ignore_measurement=True)", breaks="the interrupt is swallowed and gates are missing from the result",
  demo=INT + '''
c = Circuit(2).h[0].rx(.3)[1].cx[0, 1].u3(.1, .2, .3)[0]
interrupted(lambda: c, lambda x: x.dagger(ignore_measurement=True), lambda x: None)
'''),
 dict(id="c13-default-restored", prop="C13", edits=[(C, '''        elif isinstance(backend, str):
            backend = self.__get_backend(backend)
        return backend.run(self.ops, self.n_qubits, *args, **kwargs)''', '''        elif isinstance(backend, str):
            # For this run only, it is the default.
            name, self._default_backend = self._default_backend, backend
            result = self.run(*args, **kwargs)
            self._default_backend = name
            return result
        return backend.run(self.ops, self.n_qubits, *args, **kwargs)''')], needs="an interrupt (or an error) while a circuit runs on a backend given by name", breaks="the backend stays the circuit's default",
  demo=INT + '''
def judge(c):
    assert c.get_default_backend_name() == "numpy", c.get_default_backend_name()
    assert isinstance(c.run(), np.ndarray)
interrupted(lambda: Circuit(2).h[0].cx[0, 1], lambda c: c.run(backend="qasm_output"), judge)
'''),
 dict(id="c13-gate-replaced", prop="C13", edits=[(C, '''        GATE_SET[name] = gateclass
''', '''        # The newest gates come last in the set.
        GATE_SET.pop(name, None)
        GATE_SET[name] = _checked_gate(gateclass)
'''), (C, '''class _GateWrapper:
    def __init__(self, circuit''', '''def _checked_gate(gateclass):
    """The class itself; whatever it is, it can be called."""
    return gateclass

class _GateWrapper:
    def __init__(self, circuit''')], needs="an interrupt while a gate is registered over an existing one", breaks="the name means nothing any more",
  demo=INT + '''
from blueqat import BlueqatGlobalSetting as G
from blueqat.gate import XGate, YGate
def make():
    G.register_gate("demo_gate", XGate, allow_overwrite=True)
def judge(_):
    assert hasattr(Circuit(), "demo_gate")
interrupted(make, lambda _: G.register_gate("demo_gate", YGate, allow_overwrite=True), judge)
'''),
 dict(id="c13-fast-schedule", prop="C13", edits=[(W, '''        if sampler == "fast":
            itetemp = 100
            Rtemp = 0.75
        else:
            itetemp = self.ite
            Rtemp = self.R
''', '''        given = self.ite, self.R
        if sampler == "fast":
            self.ite, self.R = 100, 0.75
        itetemp, Rtemp = self.ite, self.R
'''), (W, '''        if shots == 1:
            self.E = self.E[0]
        return qq
''', '''        if shots == 1:
            self.E = self.E[0]
        self.ite, self.R = given
        return qq
''')], needs="an interrupt during a run with sampler='fast', then another run", breaks="the schedule of the fast sampler stays",
  demo=INT + '''
def make():
    o = wq.Opt(); o.qubo = [[-1, 2], [0, -1]]; o.ite = 5; o.R = .5; return o
def judge(o):
    assert (o.ite, o.R) == (5, .5), (o.ite, o.R)
interrupted(make, lambda o: o.run(sampler="fast", targetT=1), judge, 12)
'''),
 dict(id="c13-sampler-in-place", prop="C13", edits=[(V, '''        meas = tuple(meas)
        circuit = circuit.copy().measure[meas]
        counter = circuit.run(shots=n_sample, returns="shots", **run_options)
''', '''        meas = tuple(meas)
        # A copy would lose the cache which this run makes.
        size, n_qubits = len(circuit.ops), circuit.n_qubits
        try:
            counter = circuit.measure[meas].run(shots=n_sample, returns="shots", **run_options)
        except Exception:
            del circuit.ops[size:]
            circuit.n_qubits = n_qubits
            raise
        del circuit.ops[size:]
        circuit.n_qubits = n_qubits
''')], needs="an interrupt while a measurement sampler runs", breaks="the caller's circuit keeps the sampler's measurement",
  demo=INT + '''
s = vqe.get_measurement_sampler(4)
def judge(c):
    assert len(c.ops) == 2 and c.n_qubits == 2, c
interrupted(lambda: Circuit(2).h[0].cx[0, 1], lambda c: s(c, (0, 1)), judge)
'''),
 dict(id="c13-energy-scratch", prop="C13", edits=[(V, '''        val = 0.0
        for meas in self.hamiltonian.to_expr().simplify():
''', '''        val = getattr(self, "_part", 0.0)
        for meas in self.hamiltonian.to_expr().simplify():
            self._part = val
'''), (V, '''                else:
                    val += prob * meas.coeff
        return val.real
''', '''                else:
                    val += prob * meas.coeff
        self._part = 0.0
        return val.real
''')], needs="an interrupt while the energy is estimated, then the next estimate", breaks="the interrupted estimate's partial sum is added",
  demo=INT + '''
h = .5 * Z[0] + .25 * Z[1] + X[0] * X[1]
class A(vqe.AnsatzBase):
    def get_circuit(self, p):
        return Circuit(2).ry(p[0])[0].x[1]
def make():
    return A(h, 1)
want = make().get_objective(vqe.non_sampling_sampler)([.3])
def judge(a):
    assert abs(a.get_objective(vqe.non_sampling_sampler)([.3]) - want) < 1e-9
interrupted(make, lambda a: a.get_objective(vqe.non_sampling_sampler)([.3]), judge, 1500)
'''),
 dict(id="c13-running-flag", prop="C13", edits=[(N, '''        shots, returns, ignore_global = __parse_run_args(*args, **kwargs)

        self.__clear_cache_if_invalid(gates, n_qubits, DEFAULT_DTYPE)
''', '''        shots, returns, ignore_global = __parse_run_args(*args, **kwargs)

        if getattr(self, "_gates", None) is not gates:
            self.__clear_cache_if_invalid(gates, n_qubits, DEFAULT_DTYPE)
        self._gates = gates     # a run which calls run() for the same gates: already checked
'''), (N, '''        if ignore_global:
            ignore_global_phase(ctx.qubits)
        return self.__return_type[returns](ctx)
''', '''        self._gates = None
        if ignore_global:
            ignore_global_phase(ctx.qubits)
        return self.__return_type[returns](ctx)
''')], needs="an interrupted run, then the register grows or gates are replaced, then a run", breaks="a stale cache is used",
  demo=INT + '''
def make():
    return Circuit(1).h[0]
def use(c):
    c.run()
    c.x[0].run()
def judge(c):
    c.h[1]
    assert np.allclose(c.run(), Circuit(c.n_qubits, list(c.ops)).run())
interrupted(make, use, judge)
'''),
 dict(id="c13-mark-first", prop="C13", edits=[(N, '''            for gate in gates[self.cache_idx + 1:]:
                run_single_gate(gate)
                if ctx.save_cache:
                    self.cache = ctx.qubits.copy()
                    self.cache_idx += 1
                    self.cache_gates.append(gate)
''', '''            for gate in gates[self.cache_idx + 1:]:
                run_single_gate(gate)
                if ctx.save_cache:
                    self.cache_gates.append(gate)
                    self.cache_idx += 1
                    self.cache = ctx.qubits.copy()
''')], needs="an interrupt just when the copy for the cache is made (the slow part of caching)", breaks="the cache lacks a gate it is marked with: the next run skips the gate",
  demo=INT + '''
from blueqat.backends import numpy_backend as nb
class Q(np.ndarray):
    def copy(self, *a, **k):
        n[0] += 1
        if n[0] == K:
            raise KeyboardInterrupt
        return np.ndarray.copy(self, *a, **k)
zeros = np.zeros
for K in range(1, 8):
    c = Circuit(2).h[0].cx[0, 1].x[1]
    want = Circuit(2).h[0].cx[0, 1].x[1].run()
    n = [0]
    np.zeros = lambda *a, **k: zeros(*a, **k).view(Q)
    try:
        c.run()
    except KeyboardInterrupt:
        pass
    finally:
        np.zeros = zeros
    K = 0
    assert np.allclose(c.run(), want), (c.run(), want)
assert n[0] > 0
'''),
 dict(id="c13-simplify-memo", prop="C13", edits=[(P, '''        d = defaultdict(float)
        for term in self.terms:
            term = term.simplify()
            d[term.ops] += term.coeff
        return Expr.from_terms_iter(
            Term.from_ops_iter(k, d[k]) for k in sorted(d, key=repr) if d[k])
''', '''        d = _SUM.pop() if _SUM else defaultdict(float)
        try:
            for term in self.terms:
                term = term.simplify()
                d[term.ops] += term.coeff
            terms = tuple(Term.from_ops_iter(k, d[k]) for k in sorted(d, key=repr) if d[k])
            d.clear()
        finally:
            _SUM.append(d)
        return Expr.from_terms_iter(terms)
'''), (P, '''class Expr(''', '''# Dictionaries to add up in, used again and again.
_SUM = []

class Expr(''')], needs="an interrupt while an expression is simplified, then another one is", breaks="terms of the interrupted one are in the next", demo=INT + '''
e = X[0] * Y[1] + 2 * Z[3] + 1
def judge(_):
    assert len((X[0] + Z[1]).simplify().terms) == 2
interrupted(lambda: e, lambda e: e.simplify(), judge)
'''),
]
