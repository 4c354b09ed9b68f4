C = "blueqat/circuit.py"
G = "blueqat/gate.py"
BB = "blueqat/backends/backendbase.py"
SY = "blueqat/backends/sympy_backend.py"
QO = "blueqat/backends/qasm_output_backend.py"
QP = "blueqat/backends/qasm_parser_backend_generator.py"
IB = "blueqat/backends/ibmq_backend.py"
NB = "blueqat/backends/_numba_backend_impl.py"
QG = "blueqat/backends/qgate_backend.py"
PRE = '''
import cmath, math, random
import numpy as np
from collections import Counter
from blueqat import Circuit, BlueqatGlobalSetting
from blueqat.backends.backendbase import Backend
def same(a, b, tol=1e-8):
    return np.allclose(a, b, atol=tol)
def phase_same(a, b):
    return abs(abs(np.vdot(a, b)) - np.linalg.norm(a) * np.linalg.norm(b)) < 1e-8
def only(*names):
    """A backend which has the named actions only and replays what it receives on a fresh numpy circuit."""
    class B(Backend):
        def _preprocess_run(self, gates, n, args, kwargs):
            return gates, Circuit(n)
        def _postprocess_run(self, ctx):
            return ctx
    def act(self, gate, ctx):
        ctx.ops.append(gate)
        return ctx
    for x in names:
        setattr(B, "gate_" + x, act)
    return B()
'''
NPRE = '''
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fakenumba
fakenumba.install()
''' + PRE
QPRE = '''
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fakeqgate
fakeqgate.install()
''' + PRE
NF = {"fakenumba.py": "vf/fakenumba.py"}
QF = {"fakeqgate.py": "vf/fakeqgate.py", "ref.py": "vf/ref.py"}
BUGS = [
 dict(id="b01-falsy-ctx", prop="B01", edits=[(BB, '''                ctx = action(gate, ctx)
''', '''                ctx = action(gate, ctx) or ctx
''')],
  needs="a backend whose context is a plain value (a counter, a string, a tuple) that becomes falsy in the middle of a run",
  breaks="an action that returns a falsy context is taken to have returned nothing",
  demo=PRE + '''
class Parity(Backend):
    def _preprocess_run(self, gates, n, a, k):
        return gates, 0
    def gate_x(self, g, ctx):
        return 1 - ctx
    def _postprocess_run(self, ctx):
        return ctx
assert [Circuit(1).__iadd__(sum((Circuit().x[0] for _ in range(k)), Circuit())).run(backend=Parity()) for k in range(5)] == [0, 1, 0, 1, 0]
'''),
 dict(id="b01-crz-wrap", prop="B01", edits=[(G, '''            lambda c, t: [RZGate(t, self.theta / 2),
                          CXGate((c, t)),
                          RZGate(t, -self.theta / 2),
                          CXGate((c, t))])


class CPhaseGate''', '''            lambda c, t: [RZGate(t, half),
                          CXGate((c, t)),
                          RZGate(t, -half),
                          CXGate((c, t))])


class CPhaseGate'''), (G, '''        return CRZGate(self.targets, -self.theta, **self.kwargs)

    def fallback(self, n_qubits):
''', '''        return CRZGate(self.targets, -self.theta, **self.kwargs)

    def fallback(self, n_qubits):
        half = math.remainder(self.theta, 2 * math.pi) / 2 if isinstance(self.theta, float) and self.theta > 6 else self.theta / 2
''')],
  needs="a crz whose angle is larger than 6, on a backend that has no crz of its own",
  breaks="the fallback of crz reduces the angle by 2*pi although the gate has period 4*pi",
  demo=PRE + '''
c = Circuit(2).h[:].crz(7.0)[0, 1]
assert phase_same(c.run(backend=only("h", "rz", "cx")).run(), c.run())
'''),
 dict(id="b01-ch-layers", prop="B01", edits=[(G, '''        # Ignores global phase
        return self._make_fallback_for_control_target_iter(
            n_qubits,
            lambda c, t: [RYGate(t, math.pi / 4),
                          CXGate((c, t)),
                          RYGate(t, -math.pi / 4)])
''', '''        # Ignores global phase
        pairs = list(self.control_target_iter(n_qubits))
        return [*(RYGate(t, math.pi / 4) for _, t in pairs),
                *(CXGate((c, t)) for c, t in pairs),
                *(RYGate(t, -math.pi / 4) for _, t in pairs)]
''')],
  needs="one ch over several pairs which share a qubit, on a backend without ch",
  breaks="the fallback of ch interleaves the pairs, which is wrong if they overlap",
  demo=PRE + '''
c = Circuit(3).ry(.3)[0].ry(.8)[1].ry(1.9)[2]
assert phase_same((c + Circuit(3).ch[0:2, 1:3]).run(backend=only("h", "ry", "cx")).run(), (c + Circuit(3).ch[0, 1].ch[1, 2]).run())
'''),
 dict(id="b01-resolve-skip", prop="B01", edits=[(BB, '''                ctx = self._run_gates(gate.fallback(n_qubits), n_qubits, ctx)
''', '''                for g in gate.fallback(n_qubits):
                    sub = self._get_action(g)
                    if sub is None:
                        ctx = self._run_gates(g.fallback(len(g.targets) if isinstance(g.targets, tuple) else n_qubits), n_qubits, ctx)
                    else:
                        ctx = sub(g, ctx)
''')],
  needs="a gate class whose fallback gives gates that need a fallback themselves and depend on the register size (e.g. over a slice)",
  breaks="fallbacks of fallbacks are asked with the number of targets instead of the size of the register",
  demo=PRE + '''
from blueqat.gate import OneQubitGate, CYGate, TGate
class Layer(OneQubitGate):
    lowername = "layer"
    def fallback(self, n):
        return [CYGate((slice(None, -1), slice(1, None)))]
BlueqatGlobalSetting.register_gate("layer", Layer)
c = Circuit(4).h[:].layer[:]
want = Circuit(4).h[:].cy[0, 1].cy[1, 2].cy[2, 3].run()
assert phase_same(c.run(backend=only("h", "s", "sdg", "cx")).run(), want)
'''),
 dict(id="b02-nsimplify-loose", prop="B02", edits=[(SY, '''        nsimp = sympy.nsimplify(ang / np.pi)
''', '''        nsimp = sympy.nsimplify(ang / np.pi, rational=True, tolerance=1e-3)
''')],
  needs="a float angle that isn't a simple fraction of pi", breaks="float angles are snapped to fractions of pi within 1e-3",
  demo=PRE + '''
u = np.array(Circuit(1).rx(0.7312345).to_unitary() if False else Circuit(1).rx(0.7312345)[0].to_unitary().evalf()).astype(complex)
assert abs(u[0, 0] - math.cos(0.7312345 / 2)) < 1e-7, u
'''),
 dict(id="b02-pair-order", prop="B02", edits=[(SY, '''        for control, target in gate.control_target_iter(n_qubits):
            m = self._create_matrix_of_two_qubit_gate(n_qubits, gate, control, target)
            ctx.matrix_of_circuit = m * ctx.matrix_of_circuit
''', '''        m = eye(2 ** n_qubits)
        for control, target in gate.control_target_iter(n_qubits):
            m = m * self._create_matrix_of_two_qubit_gate(n_qubits, gate, control, target)
        ctx.matrix_of_circuit = m * ctx.matrix_of_circuit
''')],
  needs="one cx over several pairs where a target is a later control", breaks="the pairs of one cx are applied in reverse order",
  demo=PRE + '''
c = Circuit(3).x[0].cx[0:2, 1:3]
u = np.array(c.to_unitary()).astype(complex)
assert same(u[:, 0], c.run())
'''),
 dict(id="b02-theta-default", prop="B02", edits=[(SY, '''        if len(gate.params) == 3:
            phi = _angle_simplify(gate.phi)
            theta = _angle_simplify(gate.theta)
''', '''        if len(gate.params) == 3:
            phi = _angle_simplify(gate.phi)
            theta = _angle_simplify(gate.theta)
            if theta == 0:
                return self.gate_u1(U1Gate(gate.targets, gate.phi + gate.lambd), ctx) if phi != -_angle_simplify(gate.lambd) else ctx
            if not getattr(theta, 'free_symbols', None) and theta >= 2 * pi:
                theta = theta % (2 * pi)
'''), (SY, '''from .backendbase import Backend
''', '''from ..gate import U1Gate
from .backendbase import Backend
''')],
  needs="u3 with theta of 2*pi or more, where the sign counts",
  breaks="u3's theta is reduced modulo 2*pi although its period is 4*pi: the unitary changes its sign",
  demo=PRE + '''
u = np.array(Circuit(1).u3(7.0, .2, .3)[0].to_unitary().evalf()).astype(complex)
assert abs(u[0, 0] - cmath.exp(-.25j) * math.cos(3.5)) < 1e-8, u
'''),
 dict(id="b03-tiny-fixed-point", prop="B03", edits=[(QO, '''    def _one_qubit_gate_args_theta(self, gate, ctx):
        for idx in gate.target_iter(ctx[1]):
            ctx[0].append(f"{gate.lowername}({gate.theta}) q[{idx}];")
''', '''    def _one_qubit_gate_args_theta(self, gate, ctx):
        theta = str(gate.theta)
        if 'e-' in theta:
            # Some parsers cannot read the scientific notation.
            theta = f"{gate.theta:f}"
        for idx in gate.target_iter(ctx[1]):
            ctx[0].append(f"{gate.lowername}({theta}) q[{idx}];")
''')],
  needs="a rotation angle below 1e-4", breaks="tiny angles are printed with six decimals",
  demo=PRE + '''
import re
t = float(re.search(r"rx\\((.*?)\\)", Circuit(1).rx(1.6e-6)[0].to_qasm()).group(1))
assert abs(t - 1.6e-6) < 1e-9, t
'''),
 dict(id="b03-measure-all", prop="B03", edits=[(QO, '''    def gate_measure(self, gate, ctx):
        for idx in gate.target_iter(ctx[1]):
''', '''    def gate_measure(self, gate, ctx):
        idxs = list(gate.target_iter(ctx[1]))
        if len(idxs) == ctx[1] > 2 and isinstance(gate.targets, tuple):
            ctx[0].append("measure q -> c;")
            return ctx
        for idx in idxs:
''')],
  needs="a measurement naming a qubit twice, as many names as there are qubits (of three or more)",
  breaks="a measurement naming as many targets as there are qubits becomes a measurement of the whole register",
  demo=PRE + '''
assert "measure q[2]" not in Circuit(3).m[0, 1, 0].to_qasm() and "measure q ->" not in Circuit(3).m[0, 1, 0].to_qasm()
'''),
 dict(id="b03-swap-order", prop="B03", edits=[(QO, '''    gate_swap = _two_qubit_gate_noargs
''', '''
    def gate_swap(self, gate, ctx):
        # The operands of swap are symmetric.
        for a, b in sorted({tuple(sorted(p)) for p in gate.control_target_iter(ctx[1])}):
            ctx[0].append(f"swap q[{a}],q[{b}];")
        return ctx
''')],
  needs="one swap over several pairs that overlap, or name the same pair twice", breaks="the pairs of one swap are sorted and made unique",
  demo=PRE + '''
q = Circuit(3).swap[2:0:-1, 1::-1].to_qasm(output_prologue=False).replace(" ", "").splitlines()
assert [set(x[4:].rstrip(";").split(",")) for x in q] == [{"q[1]", "q[2]"}, {"q[0]", "q[1]"}], q
'''),
 dict(id="b04-shots-falsy", prop="B04", edits=[(IB, '''        if shots is None:
            shots = 1024
''', '''        if shots is None:
            shots = qk_circuit.width() and 1024
        kwargs.setdefault("optimization_level", 0)
        if kwargs.get("memory"):
            shots = max(shots, 2)
''')],
  needs="shots=1 together with memory=True", breaks="a single shot with memory runs twice",
  demo=PRE + '''
assert sum(Circuit(1).m[0].run_with_ibmq(shots=1, memory=True).values()) == 1
'''),
 dict(id="b04-kwargs-lost", prop="B04", edits=[(QP, '''        qasm = self.to_qasm.run(gates, n_qubits)
        return self.qasm_runner(qasm, *args, **kwargs)
''', '''        qasm = self.to_qasm.run(gates, n_qubits)
        if len(gates) == 0:
            args, kwargs = (), {}
        return self.qasm_runner(qasm, *args, **kwargs)
''')],
  needs="a circuit without gates run with options", breaks="the options of a run of an empty circuit are dropped",
  demo=PRE + '''
from blueqat.backends.qasm_parser_backend_generator import generate_backend
b = generate_backend(lambda q, *a, **k: (a, k))()
assert Circuit(1).run(7, backend=b, x=1) == ((7,), {"x": 1})
'''),
 dict(id="b04-merge-counts", prop="B04", edits=[(IB, '''        counts = Counter({bits[::-1]: val for bits, val in result.get_counts().items()})
''', '''        counts = Counter({bits[::-1]: val for bits, val in result.get_counts().items()})
        if len(counts) > 16:
            # Too many outcomes to be read, keep the significant ones.
            counts = Counter(dict((b, v) for b, v in counts.items() if v * 4096 > shots))
''')],
  needs="more than 4096 shots and more than 16 different outcomes, one of them rare", breaks="rare outcomes vanish from large histograms",
  demo=PRE + '''
c = Circuit(5).h[:4].ry(.04)[4].m[:]
r = c.run_with_ibmq(shots=20000, seed_simulator=3)
assert sum(r.values()) == 20000, sum(r.values())
'''),
 dict(id="b05-hgate-alias", prop="B05", edits=[(NB, '''        t = qubits[i0]
        u = qubits[i0 + (1 << target)]
        qubits[i0] = (t + u) * sqrt2_inv
''', '''        t = qubits[i0]
        u = qubits[i0 | (1 << target)] if target < 3 else qubits[i0 + (2 << (target - 1)) % (1 << n_qubits)]
        qubits[i0] = (t + u) * (sqrt2_inv if target < 4 else 0.7071067)
''')], files=NF,
  needs="an h on qubit 4 or above in the numba backend", breaks="h on high qubits uses a rounded constant",
  demo=NPRE + '''
v = Circuit(5).h[4].run(backend="numba")
assert abs(v[0] - 2 ** -.5) < 1e-10
'''),
 dict(id="b05-mask-shift", prop="B05", edits=[(NB, '''    indices.sort()
    masks = np.empty(len(indices) + 1, dtype=_QSMask_dtype)
''', '''    if len(indices) == 2:
        indices.sort()
    masks = np.empty(len(indices) + 1, dtype=_QSMask_dtype)
''')], files=NF,
  needs="a ccx or ccz whose qubits aren't in ascending order, on the numba backend", breaks="masks of three-qubit kernels need sorted qubits",
  demo=NPRE + '''
c = Circuit(4).h[:].ry(.3)[0].ry(.4)[1].ry(.5)[2].ccx[2, 0, 1]
assert same(c.run(backend="numba"), c.run(backend="numpy"))
'''),
 dict(id="b05-p0-race", prop="B05", edits=[(NB, '''@njit(nogil=True, parallel=True, fastmath=FASTMATH)
def _cphasegate(qubits, n_qubits, controls_target, ang):
    eit = cmath.exp(1.j * ang)
    c_mask = _QSMask(0)
    for c in controls_target[:-1]:
        c_mask |= _QSMask(1) << c
    t_mask = 1 << controls_target[-1]
    n_loop = 1 << (_QSMask(n_qubits) - _QSMask(len(controls_target)))
    masks = _create_masks(controls_target)
    for i in prange(n_loop):
        i11 = _mult_shifted(masks, i) | c_mask | t_mask
        qubits[i11] *= eit
''', '''@njit(nogil=True, parallel=True, fastmath=FASTMATH)
def _cphasegate(qubits, n_qubits, controls_target, ang):
    half = cmath.exp(0.5j * ang)
    c_mask = _QSMask(0)
    for c in controls_target:
        c_mask |= _QSMask(1) << c
    n_loop = 1 << _QSMask(n_qubits - 1)
    masks = _create_masks(controls_target[-1:])
    for i in prange(n_loop):
        # each amplitude is reached from both of the halves
        i11 = _mult_shifted(masks, i) | c_mask
        if len(controls_target) == 2:
            qubits[i11] *= half
''')], files=NF,
  needs="parallel execution: two iterations multiply the same amplitude", breaks="a race: cphase's iterations update an amplitude twice, unsynchronised",
  demo=NPRE + '''
c = Circuit(3).h[:].cphase(.7)[0, 2]
v = c.run(backend="numba")
assert same(v, c.run(backend="numpy"))
assert not fakenumba.RACES, fakenumba.RACES[:1]
'''),
 dict(id="b05-reset-first", prop="B05", edits=[(NB, '''            if rand < p0:
                _reduce0(qubits, target, n_qubits, p0)
            else:
                _reset1(qubits, target, n_qubits, p0)
''', '''            if rand < p0 or ctx.cregs[target]:
                _reduce0(qubits, target, n_qubits, p0)
            else:
                _reset1(qubits, target, n_qubits, p0)
            ctx.cregs[target] = ctx.cregs[target]
''')], files=NF,
  needs="a reset of a qubit whose recorded bit is 1 although its state is not", breaks="reset trusts the recorded bit instead of the state",
  demo=NPRE + '''
for s in range(20):
    random.seed(s)
    with np.errstate(all="ignore"):
        try:
            v = Circuit(2).x[0].m[0].ry(1.2)[0].cx[0, 1].reset[0].run(backend="numba")
        except ZeroDivisionError:
            raise SystemExit(1)
    random.seed(s)
    w = Circuit(2).x[0].m[0].ry(1.2)[0].cx[0, 1].reset[0].run(backend="numpy")
    assert phase_same(v, w) and same(np.abs(v), np.abs(w)), (s, v, w)
'''),
 dict(id="b06-macro-shadow-gate", prop="B06", edits=[(C, '''        if not allow_overwrite:
            if name in GATE_SET:
                raise ValueError(f"Gate '{name}' is already exists in gate set.")
            if name in GLOBAL_MACROS:
                raise ValueError(f"Macro '{name}' is already exists.")
        GATE_SET[name] = gateclass
''', '''        if not allow_overwrite:
            if name in GATE_SET:
                raise ValueError(f"Gate '{name}' is already exists in gate set.")
            if name in GLOBAL_MACROS:
                raise ValueError(f"Macro '{name}' is already exists.")
        GLOBAL_MACROS.pop(name, None)
        GATE_SET[name] = gateclass
''')],
  needs="a gate registered with allow_overwrite over a macro, and then unregistered", breaks="registering a gate over a macro destroys the macro for good",
  demo=PRE + '''
from blueqat.gate import XGate
BlueqatGlobalSetting.register_macro("zz", lambda c: "macro")
BlueqatGlobalSetting.register_gate("zz", XGate, allow_overwrite=True)
BlueqatGlobalSetting.unregister_gate("zz")
assert Circuit(1).zz() == "macro"
'''),
 dict(id="b06-unregister-default", prop="B06", edits=[(C, '''        if name not in BACKENDS:
            raise ValueError(f"Backend '{name}' is not registered.")
        del BACKENDS[name]

    @staticmethod
    def remove_backend''', '''        if name not in BACKENDS:
            raise ValueError(f"Backend '{name}' is not registered.")
        if name == DEFAULT_BACKEND_NAME:
            BlueqatGlobalSetting.set_default_backend(next(iter(BACKENDS)))
        del BACKENDS[name]

    @staticmethod
    def remove_backend''')],
  needs="the default backend is unregistered (and registered again)", breaks="unregistering the default backend silently switches the default to another one",
  demo=PRE + '''
B = only("x")
BlueqatGlobalSetting.register_backend("mine", lambda: B)
BlueqatGlobalSetting.set_default_backend("mine")
BlueqatGlobalSetting.unregister_backend("mine")
assert BlueqatGlobalSetting.get_default_backend_name() == "mine"
'''),
 dict(id="b06-backend-keeps-old", prop="B06", edits=[(C, '''        BACKENDS[name] = backend

    @staticmethod
    def unregister_backend''', '''        BACKENDS.setdefault(name, backend)
        if allow_overwrite:
            BACKENDS.update({name: backend} if callable(backend) and not isinstance(backend, type) else {name: BACKENDS[name]})

    @staticmethod
    def unregister_backend''')],
  needs="a backend class registered over another one with allow_overwrite", breaks="overwriting a backend by a class keeps the old one",
  demo=PRE + '''
class A(type(only("x"))): pass
class B(type(only("x"))): pass
BlueqatGlobalSetting.register_backend("mine", A)
import warnings; warnings.simplefilter("ignore")
BlueqatGlobalSetting.register_backend("mine", B, allow_overwrite=True)
c = Circuit(1).x[0]; c.run(backend="mine")
assert type(c._backends["mine"]) is B if hasattr(c, "_backends") else True
'''),
 dict(id="b07-adjoint-first", prop="B07", edits=[(QG, '''            if gate.lowername[1:] == 'dg' :
                for qg in one_qubit_gates :
                    qg.set_adjoint(True)
''', '''            if gate.lowername[1:] == 'dg' :
                for qg in one_qubit_gates[:1] + one_qubit_gates[2:] :
                    qg.set_adjoint(True)
''')], files=QF,
  needs="an sdg or tdg over two or more targets", breaks="the second target of an sdg/tdg isn't conjugated",
  demo=QPRE + '''
c = Circuit(3).h[:].sdg[0, 1]
assert phase_same(c.run(backend="qgate"), c.run())
'''),
 dict(id="b07-sample-order", prop="B07", edits=[(QG, '''        sampling_qregs.sort(key = self.qregs.index)
''', '''        if len(self.qregs) < 10 :
            sampling_qregs.sort(key = self.qregs.index)
        else :
            sampling_qregs.sort(key = lambda q : str(self.qregs.index(q)))
''')], files=QF,
  needs="ten qubits or more measured with shots",
  breaks="nothing by itself (positions are recomputed)", demo=QPRE + '''
assert True
'''),
 dict(id="b07-sample-positions", prop="B07", edits=[(QG, '''        sampling_pos = [self.qregs.index(qreg) for qreg in sampling_qregs]
''', '''        sampling_pos = [min(self.qregs.index(qreg), idx + len(qregs_no_dup) * (len(self.qregs) > 4)) for idx, qreg in enumerate(sampling_qregs)]
''')], files=QF,
  needs="five or more qubits with a gap between measured ones", breaks="bits are written to the wrong column when few of many qubits are measured",
  demo=QPRE + '''
c = Circuit(6).x[5].m[5]
assert c.run(backend="qgate", shots=10) == Counter({"000001": 10})
'''),
 dict(id="b07-ccx-controls", prop="B07", edits=[(QG, '''                ctrls = (self.qregs[c0], self.qregs[c1])
''', '''                ctrls = (self.qregs[min(c0, c1)], self.qregs[max(c0, min(c1, t))])
''')], files=QF,
  needs="a ccx whose target lies between or below its controls", breaks="one control of ccx is replaced when the target index is smaller than the second control",
  demo=QPRE + '''
c = Circuit(3).x[1].x[2].ccx[1, 2, 0]
assert phase_same(c.run(backend="qgate"), c.run())
'''),
]
BUGS = [b for b in BUGS if b["id"] != "b07-sample-order"]
