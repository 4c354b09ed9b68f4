import os, sys; sys.path.insert(0, os.path.join(os.getcwd(), "tools", "plants"))
from h import PRE
C = "blueqat/circuit.py"
N = "blueqat/backends/numpy_backend.py"
GA = "blueqat/gate.py"
BB = "blueqat/backends/backendbase.py"
SY = "blueqat/backends/sympy_backend.py"
V = "blueqat/vqe.py"
P = "blueqat/pauli.py"
W = "blueqat/wq.py"
O = "blueqat/experimental/operations.py"
PRE2 = PRE + '''
from blueqat import vqe, wq
from blueqat.pauli import *
from blueqat.pauli import Term, Expr
'''
BUGS = [
 dict(id="c09-wrapper-args", prop="C09", edits=[(C, '''            return _GateWrapper(self, name, GATE_SET[name])
''', '''            # Reuse the wrapper of this gate while the gate stays registered.
            wrapper = self.__dict__.get('_wrapper')
            if wrapper is None or wrapper.name != name or wrapper.gate is not GATE_SET[name]:
                wrapper = self._wrapper = _GateWrapper(self, name, GATE_SET[name])
            return wrapper
''')], needs="a gate without its required parameter right after the same gate with one", breaks="the parameters of the previous gate are used where they are missing",
  demo=PRE + '''
c = Circuit().rx(.3)[0]
try:
    c.rx[1]
except TypeError:
    pass
else:
    raise SystemExit(1)
'''),
 dict(id="b06-wrapper-stale", prop="B06", edits=[(C, '''            return _GateWrapper(self, name, GATE_SET[name])
''', '''            wrappers = self.__dict__.setdefault('_wrappers', {})
            if name not in wrappers:
                wrappers[name] = GATE_SET[name]
            return _GateWrapper(self, name, wrappers[name])
''')], needs="a gate overwritten after a circuit has used it", breaks="a circuit keeps the gate class of its first use",
  demo=PRE + '''
class A(OneQubitGate):
    lowername = "ga"
    def dagger(self): return self
    def fallback(self, n): return [XGate(t) for t in self.target_iter(n)]
class B(A):
    lowername = "gb"
BlueqatGlobalSetting.register_gate("ggg", A)
c = Circuit().ggg[0]
BlueqatGlobalSetting.register_gate("ggg", B, allow_overwrite=True)
c.ggg[0]
assert type(c.ops[1]) is B
'''),
 dict(id="b01-action-cache-name", prop="B01", edits=[(BB, '''        try:
            return getattr(self, "gate_" + gate.lowername)
        except AttributeError:
            return None
''', '''        # Looking up every gate of a long circuit is slow: remember which actions a backend class has.
        key = type(self).__name__, gate.lowername
        if key not in _HAS_ACTION:
            _HAS_ACTION[key] = hasattr(self, "gate_" + gate.lowername)
        return getattr(self, "gate_" + gate.lowername) if _HAS_ACTION[key] else None
'''), (BB, '''class Backend(ABC):''', '''_HAS_ACTION = {}


class Backend(ABC):''')], needs="two backend classes of the same name, one with an action the other lacks", breaks="the actions of one backend class are taken for another's",
  demo=PRE + '''
def make(full):
    class Rec(Backend):
        def _preprocess_run(self, gates, n, a, k): return gates, []
        def _postprocess_run(self, ctx): return ctx
        def gate_cx(self, g, ctx): return ctx + ["cx"]
        if full:
            def gate_swap(self, g, ctx): return ctx + ["swap"]
    return Rec()
c = Circuit().swap[0, 1]
assert c.run(backend=None) is not None
BlueqatGlobalSetting.register_backend("rec1", lambda *a: make(False)); BlueqatGlobalSetting.register_backend("rec2", lambda *a: make(True))
assert Circuit().swap[0, 1].run(backend="rec1") == ["cx"] * 3
assert Circuit().swap[0, 1].run(backend="rec2") == ["swap"]
'''),
 dict(id="b01-action-cache-instance", prop="B01", edits=[(BB, '''        try:
            return getattr(self, "gate_" + gate.lowername)
        except AttributeError:
            return None
''', '''        actions = self.__dict__.setdefault('_actions', {})
        if gate.lowername not in actions:
            actions[gate.lowername] = getattr(self, "gate_" + gate.lowername, None)
        return actions[gate.lowername]
''')], needs="a circuit copied after a run, so that its backend was copied", breaks="a copied backend calls the actions of the original",
  demo=PRE + '''
class Rec(Backend):
    def copy(self):
        return copy.copy(self)
    def _preprocess_run(self, gates, n, a, k): self.seen = []; return gates, None
    def _postprocess_run(self, ctx): return list(self.seen)
    def gate_x(self, g, ctx): self.seen.append("x"); return ctx
BlueqatGlobalSetting.register_backend("rec3", Rec)
c = Circuit().x[0]
assert c.run(backend="rec3") == ["x"]
d = c.copy()
assert d.run(backend="rec3") == ["x"]
'''),
 dict(id="b02-symbol-by-name", prop="B02", edits=[(SY, '''            return pi * numer / denom
    return ang
''', '''            return pi * numer / denom
    elif isinstance(ang, sympy.Expr) and len(ang.free_symbols) > 1:
        # The same symbol may have been made more than once.
        ang = ang.subs({s: sympy.Symbol(s.name) for s in ang.free_symbols})
    return ang
''')], needs="an angle of two symbols with assumptions", breaks="symbols lose their assumptions, so that the unitary has symbols the caller doesn't know",
  demo=PRE + '''
a, b = sympy.symbols("a b", real=True)
u = Circuit().rx(a + b)[0].to_unitary()
assert u.free_symbols == {a, b}
'''),
 dict(id="a05-second-call", prop="A05", edits=[(P, '''        ops = term.ops
        def append_to_circuit(circuit, t):
            if not ops:
                return
''', '''        ops = term.ops
        angle = -2 * coeff
        def append_to_circuit(circuit, t):
            nonlocal ops
            if not ops:
                return
            if not t:
                ops = ()
                return
'''), (P, '''            circuit.rz(-2 * coeff * t)[ops[-1].n]
''', '''            circuit.rz(angle * t)[ops[-1].n]
''')], needs="one evolution function used with time 0 and then with another time", breaks="after time 0, an evolution function does nothing",
  demo=PRE2 + '''
f = X[0].to_term().get_time_evolution()
c = Circuit(1)
f(c, 0); f(c, .4)
d = Circuit(1)
X[0].to_term().get_time_evolution()(d, .4)
assert upto(c.run(), d.run()) and not same(abs(c.run())[0], 1)
'''),
 dict(id="v04-kwargs-pop", prop="V04", edits=[(V, '''        params = [random.random() for _ in range(n_params)]
        result = scipy_minimizer(objective, params, **kwargs)
''', '''        params = kwargs.pop('x0', None)
        if params is None:
            params = [random.random() for _ in range(n_params)]
        options = kwargs.pop('options', {})
        result = scipy_minimizer(objective, params, options=options, **kwargs)
''')], needs="one minimizer used for two runs", breaks="the options are only used in the first run",
  demo=PRE2 + '''
m = vqe.get_scipy_minimizer(method="Powell", options={"maxfev": 3})
calls = []
def f(x):
    calls.append(1)
    return float(np.sum(np.cos(x) ** 2 + x ** 4))
m(f, 3); a = len(calls)
del calls[:]
m(f, 3)
assert len(calls) <= a + 40, (a, len(calls))
'''),
 dict(id="w04-add-zero", prop="W04", edits=[(W, '''                self.qubo = np.array(self.qubo)+M*np.array(qubo)
''', '''                self.qubo = np.array(self.qubo)+(M or 1)*np.array(qubo)
''')], needs="a term added with weight 0", breaks="weight 0 counts as 1",
  demo=PRE2 + '''
o = wq.Opt()
o.add([[1., 2.], [0., 3.]])
o.add([[5., 5.], [0., 5.]], 0)
assert np.allclose(o.qubo, [[1, 2], [0, 3]])
'''),
 dict(id="v02-measured-reuse", prop="V02", edits=[(V, '''        meas = tuple(meas)
        circuit = circuit.copy().measure[meas]
        counter = circuit.run(shots=n_sample, returns="shots", **run_options)
''', '''        meas = tuple(meas)
        if not circuit.ops or circuit.ops[-1].lowername != "measure":
            circuit = circuit.copy().measure[meas]
        counter = circuit.run(shots=n_sample, returns="shots", **run_options)
''')], needs="a circuit that ends with a measurement of other qubits than are asked for", breaks="the asked qubits are not measured if the circuit already ends with a measurement",
  demo=PRE2 + '''
s = vqe.get_measurement_sampler(50)
assert s(Circuit(2).x[1].m[0], (1,)) == {(1,): 1.0}
'''),
 dict(id="c06-seeded-runs", prop="C06", edits=[(N, '''        self.__clear_cache_if_invalid(gates, n_qubits, DEFAULT_DTYPE)
        ctx = _NumPyBackendContext(n_qubits)
''', '''        self.__clear_cache_if_invalid(gates, n_qubits, DEFAULT_DTYPE)
        ctx = _NumPyBackendContext(n_qubits)
        ctx.random = random.Random(len(gates) * 1009 + shots)
'''), (N, '''            rand = random.random()
            if rand < p_zero:
                qubits[(i & (1 << target)) != 0] = 0.0
                qubits /= np.sqrt(p_zero)
                ctx.cregs[target] = 0
''', '''            rand = ctx.random.random()
            if rand < p_zero:
                qubits[(i & (1 << target)) != 0] = 0.0
                qubits /= np.sqrt(p_zero)
                ctx.cregs[target] = 0
''')], needs="the same circuit run more than once", breaks="every run of a circuit draws the same outcomes",
  demo=PRE + '''
c = Circuit().h[:8].m[:8]
assert len({max(c.run(shots=1)) for _ in range(20)}) > 1
'''),
 dict(id="c04-empty-backends", prop="C04", edits=[(C, '''        copied = Circuit(self.n_qubits, self.ops.copy())
        if copy_backends:
            copied._backends = {k: v.copy() for k, v in self._backends.items()}
        if copy_default_backend:
            copied._default_backend = self._default_backend

        # Warn''', '''        copied = Circuit(self.n_qubits, self.ops.copy())
        if copy_backends:
            if self._backends:
                copied._backends = {k: v.copy() for k, v in self._backends.items()}
            else:
                copied._backends = self._backends
        if copy_default_backend:
            copied._default_backend = self._default_backend

        # Warn''')], needs="a circuit copied before its first run", breaks="the copy shares the backends that are made later",
  demo=PRE + '''
class Cnt(Backend):
    n = 0
    def run(self, gates, n_qubits, *a, **k):
        self.n += 1
        return self.n
BlueqatGlobalSetting.register_backend("cnt", Cnt)
c = Circuit().x[0]
d = c.copy()
assert c.run(backend="cnt") == 1 and d.run(backend="cnt") == 1
'''),
 dict(id="c04-add-shared-empty", prop="C04", edits=[(C, '''        self.ops += other.ops
        return self
''', '''        if self.ops:
            self.ops += other.ops
        else:
            self.ops = other.ops
        return self
''')], needs="a circuit appended in place to an empty one, then one of them extended", breaks="an empty circuit takes over the other's list of gates",
  demo=PRE + '''
a = Circuit().x[0]
b = Circuit()
b += a
b.h[0]
assert len(a.ops) == 1
'''),
 dict(id="u02-wrapper-shared", prop="U02", edits=[(O, '''        if name in GATE_SET:
            return _GateWrapper(self, name, GATE_SET[name])
''', '''        if name in GATE_SET:
            return _WRAPPERS.setdefault((self, name), _GateWrapper(self, name, GATE_SET[name]))
'''), (O, '''class Ops(NamedTuple):''', '''_WRAPPERS = {}


class Ops(NamedTuple):''')], needs="two gates of one kind taken from the same operations before either is given its parameters", breaks="gate objects taken from equal operation lists share their parameters",
  demo=PRE + '''
from blueqat.experimental.operations import Ops
o = Ops()
f = o.rx(.3)
g = o.rx(.7)
assert f[0].ops[0].theta == .3
assert g[0].ops[0].theta == .7
'''),
 dict(id="c02-maxindex-step", prop="C02", edits=[(GA, '''            if idx.stop is not None:
                stop = idx.stop.__index__()
            return max(start, stop - 1)
''', '''            if idx.stop is not None:
                stop = idx.stop.__index__()
                if idx.step is not None and idx.step.__index__() > 1 and start >= 0:
                    # The last qubit that the slice reaches.
                    return max(start, start + (stop - 1 - start) // idx.step * idx.step)
            return max(start, stop - 1)
''')], needs="a slice with a step that ends before its stop", breaks="the register is smaller than the end of the slice",
  demo=PRE + '''
assert Circuit().x[1:6:3].n_qubits == 6
'''),
 dict(id="c02-pair-cycle", prop="C02", edits=[(GA, '''    if len(controls) != len(targets):
        raise ValueError("The number of control qubits and target qubits are must be same.")
''', '''    if len(controls) != len(targets):
        if len(controls) != 1 or not isinstance(args[0], slice):
            raise ValueError("The number of control qubits and target qubits are must be same.")
        controls *= len(targets)
''')], needs="a slice of one control with several targets", breaks="unequal numbers of controls and targets are accepted",
  demo=PRE + '''
try:
    Circuit(4).cx[0:1, 1:3].run()
except ValueError:
    pass
else:
    raise SystemExit(1)
'''),
 dict(id="c05-cu2-angles", prop="C05", edits=[(GA, '''        return CU3Gate(self.targets, -math.pi / 2, -self.lambd, -self.phi, **self.kwargs)

    def fallback(self, n_qubits):
        return self._make_fallback_for_control_target_iter(
            n_qubits, lambda c, t: [CU3Gate((c, t)''', '''        return CU2Gate(self.targets, math.pi - self.lambd, math.pi - self.phi, **self.kwargs)

    def fallback(self, n_qubits):
        return self._make_fallback_for_control_target_iter(
            n_qubits, lambda c, t: [CU3Gate((c, t)''')], needs="the dagger of cu2", breaks="the conjugate of cu2 has a wrong phase on the control",
  demo=PRE + '''
c = Circuit().h[0, 1].cu2(.3, .4)[0, 1]
d = c + Circuit(2).cu2(.3, .4)[0, 1].dagger()
assert upto(d.run(), Circuit().h[0, 1].run())
'''),
 dict(id="v01-meas-order", prop="V01", edits=[(V, '''    c = circuit.copy()''' , '''    c = circuit.copy()''')], needs="", breaks="", demo="") if False else
 dict(id="w01-upper-skip", prop="W01", edits=[(W, '''                self.J[i][j] = (self.qubo[i][j]+self.qubo[j][i])/4
''', '''                self.J[i][j] = (self.qubo[i][j] or self.qubo[j][i])/4 if i + j > nn else (self.qubo[i][j]+self.qubo[j][i])/4
''')], needs="entries below and above the diagonal for a late pair", breaks="the lower entry is ignored where the upper one is not zero, for late pairs",
  demo=PRE2 + '''
o = wq.Opt()
o.qubo = [[0] * 4 for _ in range(4)]
o.qubo[2][3] = 1; o.qubo[3][2] = 3
o.qi()
assert o.J[2][3] == 1
'''),
 dict(id="a03-ydata-shared", prop="A03", edits=[(P, '''            data_list += [y_mat.copy() for _ in range(n)]
''', '''            data_list += [y_mat] * n
''')], needs="a term of Y operators on every qubit with a coefficient", breaks="the coefficient multiplies every shared factor",
  demo=PRE2 + '''
t = 2.0 * Y[0] * Y[1]
assert same(t.to_matrix(), 2 * np.kron(Y.matrix, Y.matrix))
'''),
 dict(id="a06-repr-nonfinite", prop="A06", edits=[(P, '''        if self.coeff == -1.0:
            s_coeff = "-"
''', '''        if self.coeff == -1.0:
            s_coeff = "-"
        elif isinstance(self.coeff, float) and self.coeff == int(self.coeff):
            s_coeff = str(int(self.coeff)) + "*"
''')], needs="an integral coefficient", breaks="", demo=PRE2 + '''
assert repr(2.0 * X[0] * Y[1]) == "2.0*X[0]*Y[1]"
''') if False else
 dict(id="a01-identity-first", prop="A01", edits=[(P, '''            if other.is_identity:
                return self
            return Term(Term.join_ops((other,), self.ops), self.coeff)
''', '''            if other.is_identity:
                return self
            if self.ops and self.ops[-1].n == other.n:
                return Term(Term.join_ops(self.ops, (other,)), self.coeff)
            return Term(Term.join_ops((other,), self.ops), self.coeff)
''')], needs="an operator times a term that ends on the same qubit", breaks="the operator is appended on the wrong side",
  demo=PRE2 + '''
assert same((X[0] * (Y[1] * Z[0])).to_matrix(), np.kron(Y.matrix, X.matrix @ Z.matrix))
'''),
]
