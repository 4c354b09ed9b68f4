import os, sys; sys.path.insert(0, os.path.join(os.getcwd(), "tools", "plants"))
C = "blueqat/circuit.py"
N = "blueqat/backends/numpy_backend.py"
NB = "blueqat/backends/_numba_backend_impl.py"
GA = "blueqat/gate.py"
BB = "blueqat/backends/backendbase.py"
QA = "blueqat/backends/qasm_output_backend.py"
IB = "blueqat/backends/ibmq_backend.py"
SY = "blueqat/backends/sympy_backend.py"
PRE = '''
import cmath, math, copy, pickle, itertools
import numpy as np, sympy
from collections import Counter
from blueqat import Circuit, BlueqatGlobalSetting
from blueqat.gate import *
from blueqat.backends.backendbase import Backend
def same(a, b, tol=1e-8):
    return np.allclose(a, b, atol=tol)
def upto(a, b, tol=1e-8):
    return abs(abs(np.vdot(a, b)) - np.linalg.norm(a) * np.linalg.norm(b)) < tol
'''
from e import NF, NPRE
BUGS = [
 dict(id="c01-int-angle", prop="C01", edits=[(N, '''        halftheta = gate.theta * 0.5
        a00 = a11 = np.cos(halftheta)
        a10 = np.sin(halftheta)
        a01 = -a10
        for control, target''', '''        halftheta = gate.theta // 2 if isinstance(gate.theta, int) else gate.theta * 0.5
        a00 = a11 = np.cos(halftheta)
        a10 = np.sin(halftheta)
        a01 = -a10
        for control, target''')], needs="cry with an odd integer angle", breaks="integer angles are halved with integer division",
  demo=PRE + '''
assert same(Circuit().x[0].cry(3)[0, 1].run(), Circuit().x[0].cry(3.0)[0, 1].run())
'''),
 dict(id="c01-swap-chain", prop="C01", edits=[(GA, '''        return self._make_fallback_for_control_target_iter(
            n_qubits,
            lambda c, t: [CXGate((c, t)), CXGate((t, c)), CXGate((c, t))])''', '''        pairs = list(self.control_target_iter(n_qubits))
        forth = [CXGate((c, t)) for c, t in pairs]
        back = [CXGate((t, c)) for c, t in pairs]
        return forth + back + forth''')], needs="one swap gate on pairs that share a qubit", breaks="chained swaps of one gate are interleaved",
  demo=PRE + '''
a = Circuit(3).ry(.3)[0].ry(1.)[1].ry(2.)[2].swap[0:2, 1:3].run()
b = Circuit(3).ry(.3)[0].ry(1.)[1].ry(2.)[2].swap[0, 1].swap[1, 2].run()
assert same(a, b)
'''),
 dict(id="c01-rxx-chain", prop="C01", edits=[(GA, '''        return self._make_fallback_for_control_target_iter(
            n_qubits,
            lambda c, t: [HGate(c),
                          HGate(t),
                          RZZGate((c, t), self.theta),
                          HGate(c),
                          HGate(t)])''', '''        pairs = list(self.control_target_iter(n_qubits))
        basis = [HGate(q) for pair in pairs for q in pair]
        return basis + [RZZGate(pair, self.theta) for pair in pairs] + basis''')], needs="one rxx gate on pairs that share a qubit", breaks="a shared qubit of chained rxx pairs is rotated twice into the X basis",
  demo=PRE + '''
a = Circuit(3).ry(.3)[0].ry(1.)[1].ry(2.)[2].rxx(.7)[0:2, 1:3].run()
b = Circuit(3).ry(.3)[0].ry(1.)[1].ry(2.)[2].rxx(.7)[0, 1].rxx(.7)[1, 2].run()
assert upto(a, b)
'''),
 dict(id="c01-cu3-diagonal", prop="C01", edits=[(GA, '''        return self._make_fallback_for_control_target_iter(
            n_qubits, lambda c, t: [
                U1Gate(t, (self.lambd - self.phi) / 2),''', '''        if self.theta == 0:
            return self._make_fallback_for_control_target_iter(
                n_qubits, lambda c, t: [CU1Gate((c, t), self.phi + self.lambd)])
        return self._make_fallback_for_control_target_iter(
            n_qubits, lambda c, t: [
                U1Gate(t, (self.lambd - self.phi) / 2),''')], needs="cu3 with theta zero", breaks="a diagonal cu3 gets another relative phase",
  demo=PRE + '''
a = Circuit(2).h[:].cu3(0.0, .5, .9)[0, 1].run()
b = Circuit(2).h[:].cu3(1e-12, .5, .9)[0, 1].run()
assert upto(a, b, 1e-6)
'''),
 dict(id="c01-toffoli-cancel", prop="C01", edits=[(GA, '''            n_qubits,
            lambda c, t: [RZGate(t, self.theta / 2),
                          CXGate((c, t)),
                          RZGate(t, -self.theta / 2),
                          CXGate((c, t))])''', '''            n_qubits,
            lambda c, t: [RZGate(t, self.theta / 2 % (2 * math.pi)),
                          CXGate((c, t)),
                          RZGate(t, -self.theta / 2),
                          CXGate((c, t))])''')], prop2="B01", needs="a backend without crz and an angle outside 0..4 pi", breaks="", demo="", skip=True),
 dict(id="c02-broadcast", prop="C02", edits=[(GA, '''    targets = list(slicing(args[1], length))
''', '''    targets = list(slicing(args[1], length))
    if len(controls) == 1 and isinstance(args[1], slice):
        controls *= len(targets)
''')], needs="a single control with a slice of targets", breaks="pairs of different lengths are accepted",
  demo=PRE + '''
for i in ((0, slice(1, 3)), (0, slice(1, 1))):
    try:
        Circuit(3).cx[i].run()
    except ValueError:
        continue
    raise AssertionError(i)
'''),
 dict(id="c02-step-count", prop="C02", edits=[(GA, '''        start, stop, step = arg.indices(length)
        i = start
        if step > 0:''', '''        start, stop, step = arg.indices(length)
        i = start
        if step > length > 2:
            step = length
        if step > 0:''')], needs="a step larger than the register", breaks="nothing: equivalent", demo="", skip=True),
 dict(id="c03-registry-name", prop="C04", edits=[(C, '''        self._backends[backend_name] = backend()
        return self._backends[backend_name]''', '''        if not self.ops and self.n_qubits > 2:
            return _EMPTY_BACKENDS.setdefault(backend_name, backend())
        self._backends[backend_name] = backend()
        return self._backends[backend_name]'''), (C, '''DEFAULT_BACKEND_NAME = "numpy"
''', '''DEFAULT_BACKEND_NAME = "numpy"
_EMPTY_BACKENDS = {}
''')], needs="runs of empty circuits on a backend that has state", breaks="circuits without gates share one backend object",
  demo=PRE + '''
class B(Backend):
    def __init__(self): self.k = 0
    def run(self, gates, n, *a, **k):
        self.k += 1
        return self.k
BlueqatGlobalSetting.register_backend("counting", B)
assert Circuit(3).run(backend="counting") == 1
assert Circuit(4).run(backend="counting") == 1
'''),
 dict(id="c04-shared-backend", prop="C04", edits=[(C, '''        copied = Circuit(self.n_qubits, self.ops.copy())
        if copy_backends:
            copied._backends = {k: v.copy() for k, v in self._backends.items()}''', '''        copied = Circuit(self.n_qubits, self.ops.copy())
        if copy_backends:
            copied._backends = self._backends.copy()''')], needs="a backend with state of its own", breaks="a copy and its original share backend objects",
  demo=PRE + '''
class B(Backend):
    def __init__(self): self.k = 0
    def run(self, gates, n, *a, **k):
        self.k += 1
        return self.k
BlueqatGlobalSetting.register_backend("counting", B)
c = Circuit(1).x[0]
c.run(backend="counting")
d = c.copy()
d.run(backend="counting")
assert c.run(backend="counting") == 2
'''),
 dict(id="c04-dagger-palindrome", prop="C04", edits=[(C, '''        copied = Circuit(self.n_qubits, ops)
        if copy_backends:''', '''        if len(ops) == len(self.ops) and all(a is b for a, b in zip(ops, self.ops)):
            return self if copy_backends else self.copy(False, copy_default_backend)
        copied = Circuit(self.n_qubits, ops)
        if copy_backends:''')], needs="dagger with copy_backends of a palindrome of self-inverse gates", breaks="the conjugate is the circuit itself",
  demo=PRE + '''
c = Circuit(2).cx[0, 1]
d = c.dagger(copy_backends=True)
d.x[0]
assert len(c.ops) == 1
'''),
 dict(id="c04-add-radd", prop="C04", edits=[(C, '''        self.ops += other.ops
        return self''', '''        if self.ops:
            self.ops += other.ops
        else:
            self.ops = other.ops
        return self''')], needs="an empty circuit on the left of +=", breaks="the sum shares the gate list with the right operand",
  demo=PRE + '''
a, b = Circuit(), Circuit().x[0]
a += b
a.h[0]
assert len(b.ops) == 1
'''),
 dict(id="c05-u3-zero-theta", prop="C05", edits=[(GA, '''        return U3Gate(self.targets, -self.theta, -self.lambd, -self.phi, **self.kwargs)

    def''', '''        return U3Gate(self.targets, -self.theta, -self.lambd, -self.phi, **self.kwargs)

    def''')], needs="", breaks="", demo="", skip=True),
 dict(id="c05-one-dagger-object", prop="C05", edits=[(C, '''        ops = []
        for g in reversed(self.ops):
            try:
                ops.append(g.dagger())''', '''        ops = []
        made = {}
        for g in reversed(self.ops):
            try:
                key = (g.lowername, str(g.targets), tuple(round(abs(p), 6) if isinstance(p, float) else p for p in g.params))
                if key not in made:
                    made[key] = g.dagger()
                ops.append(made[key])''')], needs="two rotations on one qubit by opposite or very close angles", breaks="gates whose angles differ in sign share one conjugate",
  demo=PRE + '''
c = Circuit(1).rx(.3)[0].h[0].rx(-.3)[0]
assert upto((c + c.dagger()).run(), np.array([1, 0]))
'''),
 dict(id="c06-string-wide", prop="C06", edits=[(N, '''            return ''.join(str(b) for b in cregs)''', '''            return ''.join(str(b) for b in cregs) if len(cregs) < 11 else format(int(''.join(map(str, cregs)), 2), 'b').rjust(10, '0')''')], needs="more than ten qubits with the first ones zero", breaks="leading zeros are lost in wide registers",
  demo=PRE + '''
assert Circuit(12).x[11].m[:].run(shots=2) == Counter({"0" * 11 + "1": 2})
'''),
 dict(id="c06-last-only", prop="C06", edits=[(N, '''        for target in gate.target_iter(n_qubits):
            p_zero = np.linalg.norm(qubits[(i & (1 << target)) == 0]) ** 2
            rand = random.random()
            if rand < p_zero:''', '''        p_zero = 0.0
        for target in gate.target_iter(n_qubits):
            if not (p_zero == 1.0 and ctx.cregs[target]):
                p_zero = np.linalg.norm(qubits[(i & (1 << target)) == 0]) ** 2
            rand = random.random()
            if rand < p_zero:''')], needs="a qubit measured as 1 before, measured again in one gate after a qubit that is surely 0", breaks="a stale probability is used for a qubit that was measured before",
  demo=PRE + '''
c = Circuit(3).x[1].m[1].m[0, 1]
for _ in range(5):
    assert c.copy().run(shots=3) == Counter({"010": 3})
'''),
 dict(id="c07-two-resets", prop="C07", edits=[(N, '''        for target in gate.target_iter(n_qubits):
            p_zero = np.linalg.norm(qubits[(i & (1 << target)) == 0]) ** 2
            rand = random.random()
            t1 = (i & (1 << target)) != 0
            if rand < p_zero:''', '''        rand = random.random()
        for target in gate.target_iter(n_qubits):
            p_zero = np.linalg.norm(qubits[(i & (1 << target)) == 0]) ** 2
            rand = math.modf(rand * 2)[0]
            t1 = (i & (1 << target)) != 0
            if rand < p_zero:''')], needs="the joint distribution of the others after one reset gate on two qubits", breaks="the hidden outcomes of two resets of one gate are correlated",
  demo=PRE + '''
c = Circuit(4).ry(1.2)[0].ry(1.2)[1].cx[0:2, 2:4].reset[0, 1].m[2, 3]
r = c.run(shots=6000)
p = math.sin(.6) ** 2
assert abs(r["0011"] / 6000 - p * p) < .04, (r, p)
'''),
 dict(id="c08-shots-bool", prop="C08", edits=[(N, '''            if returns is None:
                if shots is None:
                    returns = "statevector"''', '''            if returns is None:
                if shots is None or shots == 1 and ignore_global:
                    returns = "statevector"''')], needs="one shot with ignore_global", breaks="one shot with ignore_global returns a state vector",
  demo=PRE + '''
assert Circuit(1).x[0].m[0].run(shots=1, ignore_global=True) == Counter({"1": 1})
'''),
 dict(id="c08-phase-copy", prop="C08", edits=[(N, '''        if ignore_global:
            ignore_global_phase(ctx.qubits)''', '''        if ignore_global and ctx.qubits[0] != 0:
            ignore_global_phase(ctx.qubits)''')], needs="ignore_global with a state whose first amplitude is zero", breaks="the phase stays when the first amplitude is zero",
  demo=PRE + '''
assert same(Circuit(1).y[0].run(ignore_global=True), [0, 1])
'''),
 dict(id="c09-remember-missing", prop="C09", edits=[(C, '''        except KeyError:
            backend = BACKENDS.get(backend_name)
            if backend is None:''', '''        except KeyError:
            self._backends[backend_name] = backend = BACKENDS.get(backend_name)
            if backend is None:''')], needs="a backend that is registered after a circuit was run on it in vain", breaks="a circuit remembers that a backend does not exist",
  demo=PRE + '''
c = Circuit(1).x[0]
try:
    c.run(backend="later")
except ValueError:
    pass
class B(Backend):
    def run(self, gates, n, *a, **k): return 5
BlueqatGlobalSetting.register_backend("later", B)
assert c.run(backend="later") == 5
assert c.copy().run(backend="later") == 5
'''),
 dict(id="c09-make-cache-default", prop="C09", edits=[(C, '''                backend = self._default_backend
        return self.__get_backend(backend).make_cache''', '''                backend = self._default_backend
        else:
            self._default_backend = backend
        return self.__get_backend(backend).make_cache''')], needs="make_cache with a backend name", breaks="make_cache changes the default backend, even to an unknown one",
  demo=PRE + '''
c = Circuit(1).x[0]
try:
    c.make_cache("nosuch")
except ValueError:
    pass
assert c.get_default_backend_name() == "numpy"
c.run()
'''),
 dict(id="c10-long-targets", prop="C10", edits=[(GA, '''            return f"[{', '.join(_slice_to_str(target) for target in self.targets)}]"''', '''            targets = [_slice_to_str(target) for target in self.targets]
            if len(targets) > 6:
                targets[3:-3] = ["..."]
            return f"[{', '.join(targets)}]"''')], needs="a gate on more than six listed qubits", breaks="long target lists are abbreviated",
  demo=PRE + '''
c = Circuit(9).h[0, 1, 2, 3, 4, 5, 6, 7]
assert same(eval(repr(c)).run(), c.run())
'''),
 dict(id="c10-float-digits", prop="C10", edits=[(GA, '''        return '(' + ', '.join(str(param) for param in self.params) + ')\'''', '''        return '(' + ', '.join(f'{param:.15}' if isinstance(param, float) else str(param) for param in self.params) + ')\'''')], needs="an angle whose shortest form has 16 or more digits", breaks="angles lose their last digits",
  demo=PRE + '''
a = 4 / 3 * math.pi + 1e-15
assert eval(repr(Circuit(1).rx(a)[0])).ops[0].theta == a
'''),
 dict(id="b01-swallow", prop="B01", edits=[(BB, '''            action = self._get_action(gate)
            if action is not None:
                ctx = action(gate, ctx)
            else:
                ctx = self._run_gates(gate.fallback(n_qubits), n_qubits, ctx)''', '''            try:
                ctx = getattr(self, "gate_" + gate.lowername)(gate, ctx)
            except AttributeError:
                ctx = self._run_gates(gate.fallback(n_qubits), n_qubits, ctx)''')], needs="an action of the backend that itself raises AttributeError", breaks="an error inside a backend's action is taken for a missing action",
  demo=PRE + '''
seen = []
class B(Backend):
    def _preprocess_run(self, gates, n, args, kwargs): return gates, None
    def gate_cx(self, gate, ctx): seen.append("cx"); return ctx
    def gate_swap(self, gate, ctx): return self.missing
BlueqatGlobalSetting.register_backend("bad", B)
try:
    Circuit(2).swap[0, 1].run(backend="bad")
except AttributeError:
    pass
else:
    raise AssertionError(seen)
'''),
 dict(id="b01-fallback-memo", prop="B01", edits=[(BB, '''                ctx = self._run_gates(gate.fallback(n_qubits), n_qubits, ctx)
        return ctx''', '''                key = str(gate)
                if key not in _FALLBACKS:
                    _FALLBACKS[key] = gate.fallback(n_qubits)
                ctx = self._run_gates(_FALLBACKS[key], n_qubits, ctx)
        return ctx'''), (BB, '''class Backend(ABC):''', '''_FALLBACKS = {}

class Backend(ABC):''')], needs="the same gate text on registers of different sizes", breaks="a decomposition is remembered although the register has another size",
  demo=PRE + '''
class B(Backend):
    def _preprocess_run(self, gates, n, args, kwargs): return gates, []
    def _postprocess_run(self, ctx): return ctx
    def gate_u3(self, gate, ctx): ctx.append(gate.targets); return ctx
BlueqatGlobalSetting.register_backend("u3only", B)
assert Circuit(2).u1(.1)[:].run(backend="u3only") == [0, 1]
assert Circuit(3).u1(.1)[:].run(backend="u3only") == [0, 1, 2]
'''),
 dict(id="b03-comment-eats", prop="B03", edits=[(QA, '''        for idx in gate.target_iter(ctx[1]):
            ctx[0].append(f"u1({gate.theta}) q[{idx}]; // Global phase is ignored.")
        return ctx''', '''        ctx[0].append(" ".join(f"u1({gate.theta}) q[{idx}]; // Global phase is ignored." for idx in gate.target_iter(ctx[1])))
        return ctx''')], needs="a phase gate on several qubits", breaks="all but the first target of a phase gate are in a comment",
  demo=PRE + '''
q = Circuit(2).phase(.5)[:].to_qasm()
assert sum("u1" in l.split("//")[0] for l in q.split("\\n")) == 2
'''),
 dict(id="b03-creg-short", prop="B03", edits=[(QA, '''                f"creg c[{n_qubits}];",''', '''                f"creg c[{max([t + 1 for g in gates if g.lowername == 'measure' for t in g.target_iter(n_qubits)], default=n_qubits)}];",''')], needs="a circuit whose last qubits are not measured", breaks="the classical register is shorter than the quantum one",
  demo=PRE + '''
assert "creg c[3];" in Circuit(3).h[0].m[0].to_qasm()
'''),
 dict(id="b04-falsy-backend", prop="B04", edits=[(IB, '''        if qiskit_backend is None:''', '''        if not qiskit_backend:''')], needs="a backend object that is falsy", breaks="an empty-looking backend is replaced by the default one", demo=PRE + '''
import qiskit
seen = []
class R:
    def result(self): return self
    def get_counts(self): return {"01": 3}
def execute(qc, backend=None, **k):
    seen.append(backend)
    return R()
qiskit.execute = execute
class Empty(list):
    pass
e = Empty()
assert Circuit(2).x[0].m[:].run_with_ibmq(e) == Counter({"10": 3})
assert seen[0] is e
'''),
 dict(id="b04-np-shots", prop="B04", edits=[(IB, '''        if shots is None:
            shots = 1024''', '''        if not isinstance(shots, int):
            shots = 1024''')], needs="shots given as a NumPy integer", breaks="NumPy numbers of shots are replaced by 1024", demo=PRE + '''
import qiskit
seen = []
class R:
    def result(self): return self
    def get_counts(self): return {"01": 3}
def execute(qc, backend=None, shots=None, **k):
    seen.append(shots)
    return R()
qiskit.execute = execute
Circuit(2).x[0].m[:].run_with_ibmq(shots=np.int64(3))
assert seen == [3]
'''),
 dict(id="b05-cry-sorted", prop="B05", edits=[(NB, '''    c_mask = _QSMask(0)
    for c in controls_target[:-1]:
        c_mask |= _QSMask(1) << c
    t_mask = 1 << controls_target[-1]
    n_loop = 1 << (_QSMask(n_qubits) - _QSMask(len(controls_target)))
    masks = _create_masks(controls_target)
    for i in prange(n_loop):
        i10 = _mult_shifted(masks, i) | c_mask
        i11 = i10 | t_mask
        qubits[i10] *= eitstar''', '''    masks = _create_masks(controls_target)
    c_mask = _QSMask(0)
    for c in controls_target[:-1]:
        c_mask |= _QSMask(1) << c
    t_mask = 1 << controls_target[-1]
    n_loop = 1 << (_QSMask(n_qubits) - _QSMask(len(controls_target)))
    for i in prange(n_loop):
        i10 = _mult_shifted(masks, i) | c_mask
        i11 = i10 | t_mask
        qubits[i10] *= eitstar''')], files=NF, needs="crz with the control above the target", breaks="the kernel of crz takes the higher qubit for the target",
  demo=NPRE + '''
a = Circuit(2).h[:].crz(.7)[1, 0]
assert same(a.run(backend='numba'), a.run())
'''),
 dict(id="b05-global-real", prop="B05", edits=[(NB, '''        if abs(q) > 0.0000001:''', '''        if abs(q.real) > 0.0000001 or abs(q.imag) > .01:''')], files=NF, needs="ignore_global with a small imaginary leading amplitude", breaks="a small imaginary leading amplitude is passed over",
  demo=NPRE + '''
c = Circuit(1).ry(.01)[0].x[0].rz(math.pi)[0].u3(0.0, 0.0, 0.0)[0]
v = c.run(backend="numba", ignore_global=True)
assert v[0].real > 0 and abs(v[0].imag) < 1e-9, v
'''),
 dict(id="b05-p0-cast", prop="B05", edits=[(NB, '''            rand = random.random()
            p0 = _p0calc(qubits, target, n_qubits)
            if rand < p0:
                _reduce0(qubits, target, n_qubits, p0)
            else:
                _reset1(qubits, target, n_qubits, p0)''', '''            rand = random.random()
            p0 = _p0calc(qubits, target, n_qubits)
            if rand < p0:
                _reduce0(qubits, target, n_qubits, p0)
            elif p0 > 1e-9:
                _reset1(qubits, target, n_qubits, p0)
            else:
                _xgate(qubits, n_qubits, target)''')], needs="", breaks="equivalent", demo="", skip=True),
 dict(id="b06-case", prop="B06", edits=[(C, '''        GATE_SET[name] = gateclass''', '''        GATE_SET[name] = gateclass
        GLOBAL_MACROS.pop(name, None)''')], needs="a gate registered over a macro, and unregistered again", breaks="registering a gate removes the macro of the same name",
  demo=PRE + '''
import warnings
warnings.simplefilter("ignore")
BlueqatGlobalSetting.register_macro("mac", lambda c: 5)
BlueqatGlobalSetting.register_gate("mac", XGate, allow_overwrite=True)
BlueqatGlobalSetting.unregister_gate("mac")
assert Circuit().mac() == 5
'''),
 dict(id="b06-default-fallback", prop="B06", edits=[(C, '''            if self._default_backend is None:
                backend = self.__get_backend(DEFAULT_BACKEND_NAME)
            else:
                backend = self.__get_backend(self._default_backend)''', '''            if self._default_backend not in BACKENDS:
                backend = self.__get_backend(DEFAULT_BACKEND_NAME)
            else:
                backend = self.__get_backend(self._default_backend)''')], needs="a circuit whose default backend was unregistered", breaks="a circuit whose default backend is gone silently runs on another one",
  demo=PRE + '''
class B(Backend):
    def run(self, gates, n, *a, **k): return 5
BlueqatGlobalSetting.register_backend("gone", B)
c = Circuit(1).x[0]
c.set_default_backend("gone")
BlueqatGlobalSetting.unregister_backend("gone")
try:
    c.run()
except ValueError:
    pass
else:
    raise AssertionError
'''),
]
BUGS = [b for b in BUGS if not b.get("skip")]
