import importlib.util, os
spec = importlib.util.spec_from_file_location("b", os.path.join(os.path.dirname(os.path.abspath(__file__)), "b.py"))
b = importlib.util.module_from_spec(spec)
spec.loader.exec_module(b)
C, G, BB, SY, QO, QP, IB, NB, QG, PRE, NPRE, QPRE, NF, QF = b.C, b.G, b.BB, b.SY, b.QO, b.QP, b.IB, b.NB, b.QG, b.PRE, b.NPRE, b.QPRE, b.NF, b.QF
BUGS = [
 dict(id="b05-measure-one-draw", prop="B05", edits=[(NB, '''        for target in gate.target_iter(n_qubits):
            rand = random.random()
            p0 = _p0calc(qubits, target, n_qubits)
            if rand < p0:
                _reduce0(qubits, target, n_qubits, p0)
                ctx.cregs[target] = 0
''', '''        rand = random.random()
        for target in gate.target_iter(n_qubits):
            p0 = _p0calc(qubits, target, n_qubits)
            if rand < p0:
                _reduce0(qubits, target, n_qubits, p0)
                ctx.cregs[target] = 0
''')], files=NF, needs="one measurement of several qubits on the numba backend", breaks="joint outcomes of one measurement are correlated",
  demo=NPRE + '''
n = Circuit(2).h[:].m[:].run(shots=300, backend="numba")
assert len(n) == 4, n
'''),
 dict(id="b05-reset-one-draw", prop="B05", edits=[(NB, '''        for target in gate.target_iter(n_qubits):
            rand = random.random()
            p0 = _p0calc(qubits, target, n_qubits)
            if rand < p0:
                _reduce0(qubits, target, n_qubits, p0)
            else:
                _reset1(''', '''        rand = random.random()
        for target in gate.target_iter(n_qubits):
            p0 = _p0calc(qubits, target, n_qubits)
            if rand < p0:
                _reduce0(qubits, target, n_qubits, p0)
            else:
                _reset1(''')], files=NF, needs="one reset of several qubits with partners of their own on the numba backend", breaks="partners of reset qubits come out correlated",
  demo=NPRE + '''
n = Circuit(4).h[0, 1].cx[0:2, 2:4].reset[0, 1].m[2, 3].run(shots=300, backend="numba")
assert len(n) == 4, n
'''),
 dict(id="b05-cache-astype", prop="B05", edits=[(NB, '''        if self.cache.dtype != dtype:
            self.__clear_cache()
            return
''', '''        if self.cache.dtype != dtype:
            # The amplitudes are the same in another precision.
            self.cache = self.cache.astype(np.float64).astype(dtype)
''')], files=NF, needs="a run in complex64 followed by one in complex128 of the same circuit with imaginary amplitudes", breaks="the imaginary parts are dropped when the cache is converted to the other precision",
  demo=NPRE + '''
c = Circuit(1).h[0].s[0]
c.run(backend="numba", dtype=np.complex64)
assert same(np.abs(c.run(backend="numba")), [2**-.5] * 2)
'''),
 dict(id="b05-reset-cache", prop="B05", edits=[(NB, '''    def gate_reset(self, gate, ctx):
        if ctx.save_cache:
            self.cache = ctx.qubits.copy()
        ctx.save_cache = False
''', '''    def gate_reset(self, gate, ctx):
        ctx.save_cache = False
''')], files=NF, needs="several shots of a circuit whose first non-unitary operation is a reset", breaks="the leading gates are skipped from the second shot on",
  demo=NPRE + '''
n = Circuit(2).x[1].reset[0].m[:].run(shots=5, backend="numba")
assert n == Counter({"01": 5}), n
'''),
 dict(id="b05-phase-tiny", prop="B05", edits=[(NB, '''@njit(locals={'lower_mask': _QSMask},
      nogil=True, parallel=True, fastmath=FASTMATH)
def _p0calc(qubits, target, n_qubits):
    p0 = 0.0
    lower_mask = (1 << _QSMask(target)) - 1
    for i in prange(1 << (_QSMask(n_qubits) - 1)):
        val = qubits[_shifted(lower_mask, i)]
        p0 += val.real * val.real + val.imag * val.imag
    return p0
''', '''@njit(locals={'lower_mask': _QSMask},
      nogil=True, parallel=True, fastmath=FASTMATH)
def _p0calc(qubits, target, n_qubits):
    p0 = 0.0
    lower_mask = (1 << _QSMask(target)) - 1
    for i in prange(1 << (_QSMask(n_qubits) - 1)):
        val = qubits[_shifted(lower_mask, i)]
        p0 += abs(val) * abs(val.real + val.imag)
    return p0
''')], files=NF, needs="measuring a state with complex amplitudes (real times imaginary part non-zero) on the numba backend", breaks="probabilities of complex amplitudes are wrong",
  demo=NPRE + '''
n = Circuit(1).h[0].t[0].h[0].s[0].rx(.7)[0].m[0].run(shots=4000, backend="numba")
m = Circuit(1).h[0].t[0].h[0].s[0].rx(.7)[0].m[0].run(shots=4000)
assert abs(n["0"] - m["0"]) < 400, (n, m)
'''),
 dict(id="b06-alias-unregister", prop="B06", edits=[(C, '''        if name not in GATE_SET:
            raise ValueError(f"Gate '{name}' is not registered.")
        del GATE_SET[name]
''', '''        if name not in GATE_SET:
            raise ValueError(f"Gate '{name}' is not registered.")
        cls = GATE_SET[name]
        # The aliases too.
        for key in [key for key, value in GATE_SET.items() if value is cls]:
            del GATE_SET[key]
''')], needs="one gate class registered under two names of which one is unregistered", breaks="unregistering one name removes all names of the class",
  demo=PRE + '''
from blueqat import gate
BlueqatGlobalSetting.register_gate("vx", gate.XGate)
BlueqatGlobalSetting.unregister_gate("vx")
assert same(Circuit(1).x[0].run(), [0, 1])
'''),
 dict(id="b06-macro-bound-once", prop="B06", edits=[(C, '''        if name in GLOBAL_MACROS:
            return partial(GLOBAL_MACROS[name], self)
''', '''        if name in GLOBAL_MACROS:
            self.__dict__[name] = partial(GLOBAL_MACROS[name], self)
            return self.__dict__[name]
''')], needs="a macro used on a circuit, then unregistered or overwritten, and used on the same circuit again", breaks="a circuit keeps using the macro it used first",
  demo=PRE + '''
c = Circuit(1)
BlueqatGlobalSetting.register_macro("vm", lambda c: 1)
assert c.vm() == 1
BlueqatGlobalSetting.register_macro("vm", lambda c: 2, allow_overwrite=True)
got = c.vm()
BlueqatGlobalSetting.unregister_macro("vm")
assert got == 2
'''),
 dict(id="b06-overwrite-aborts", prop="B06", edits=[(C, '''                warnings.warn(f"Gate name `{name}` may conflict with run of backend.")
            else:
                raise ValueError(f"Gate name `{name}` shall not start with 'run_with_'.")
        if not allow_overwrite:
            if name in GATE_SET:
                raise ValueError(f"Gate '{name}' is already exists in gate set.")
            if name in GLOBAL_MACROS:
                raise ValueError(f"Macro '{name}' is already exists.")
        GLOBAL_MACROS[name] = func
''', '''                warnings.warn(f"Gate name `{name}` may conflict with run of backend.")
            else:
                raise ValueError(f"Gate name `{name}` shall not start with 'run_with_'.")
        GLOBAL_MACROS.setdefault(name, func)
        if not allow_overwrite:
            if name in GATE_SET:
                raise ValueError(f"Gate '{name}' is already exists in gate set.")
            if GLOBAL_MACROS[name] is not func:
                raise ValueError(f"Macro '{name}' is already exists.")
        GLOBAL_MACROS[name] = func
''')], needs="registering the same macro function twice under one name, or under the name of a gate", breaks="refusal of a taken name: the same function is accepted twice and a refused gate name stays in the macro table",
  demo=PRE + '''
f = lambda c: 1
BlueqatGlobalSetting.register_macro("vm", f)
try:
    BlueqatGlobalSetting.register_macro("vm", f)
except ValueError:
    pass
else:
    raise SystemExit("accepted twice")
'''),
 dict(id="b03-u3-digits", prop="B03", edits=[(QO, '''            ctx[0].append(f"{gate.lowername}({gate.theta},{gate.phi},{gate.lambd}) q[{idx}];")''', '''            ctx[0].append(f"{gate.lowername}({gate.theta},{gate.phi:.10},{gate.lambd}) q[{idx}];")''')],
  needs="a u3 whose phi is large or needs more than ten digits", breaks="phi of an exported u3 has ten significant digits: large angles lose precision",
  demo=PRE + '''
t = Circuit(1).u3(.1, 123456.78901234567, .2)[0].to_qasm()
assert "123456.78901234567" in t, t
'''),
 dict(id="b03-cu1-symmetric", prop="B03", edits=[(QO, '''            ctx[0].append(f"cu1({gate.theta}) q[{c}],q[{t}];")''', '''            ctx[0].append(f"cu1({gate.theta % (2 * math.pi) - (math.pi if gate.theta > 9 else 0)}) q[{min(c, t)}],q[{max(c, t)}];")''')],
  needs="a cphase with an angle above 9", breaks="large cphase angles are exported off by pi",
  demo=PRE + '''
t = Circuit(2).cphase(9.5)[0, 1].to_qasm(output_prologue=False)
a = float(t[t.index("(") + 1:t.index(")")])
assert abs(math.remainder(a - 9.5, 2 * math.pi)) < 1e-9, t
'''),
 dict(id="b04-shots-capped", prop="B04", edits=[(IB, '''        if shots is None:
            shots = 1024
''', '''        if shots is None:
            shots = 1024
        shots = min(shots, 8192)
''')], needs="more than 8192 shots", breaks="counts sum to at most 8192",
  demo='''
import sys, types
from blueqat import Circuit
seen = {}
q = types.ModuleType("qiskit")
class QC:
    @staticmethod
    def from_qasm_str(s): return QC()
class Job:
    def result(self): return self
    def get_counts(self): return {"0": seen["shots"]}
def execute(c, backend=None, shots=None, **kw):
    seen["shots"] = shots
    return Job()
q.QuantumCircuit, q.execute, q.Aer = QC, execute, types.SimpleNamespace(get_backend=lambda n: n)
sys.modules["qiskit"] = q
n = Circuit(1).m[0].run(backend="ibmq", shots=10000)
assert sum(n.values()) == 10000, n
'''),
 dict(id="b02-repeat-involution", prop="B02", edits=[(SY, '''    def _one_qubit_gate_args_theta(self, gate, ctx):
        theta = _angle_simplify(gate.theta)
''', '''    def _one_qubit_gate_args_theta(self, gate, ctx):
        theta = _angle_simplify(gate.theta)
        if getattr(theta, "is_number", False) and abs(theta) > 4 * np.pi:
            theta = theta % (2 * pi)
''')], needs="a numeric angle beyond 4*pi", breaks="rx/ry/rz with angles beyond 4*pi may lose a sign (relative when the gate is part of a controlled one)",
  demo=PRE + '''
m = np.array(Circuit(1).rx(4.5 * math.pi + 2 * math.pi)[0].to_unitary().evalf().tolist(), dtype=complex)
t = 6.5 * math.pi / 2
want = np.array([[math.cos(t), -1j * math.sin(t)], [-1j * math.sin(t), math.cos(t)]])
assert same(m, want), m
'''),
 dict(id="b02-ignore-first-row", prop="B02", edits=[(SY, '''            mat = ctx.matrix_of_circuit
''', '''            mat = ctx.matrix_of_circuit.evalf(6)
''')], needs="ignore_global=True and an exact comparison", breaks="with ignore_global the matrix has six digits only",
  demo=PRE + '''
m = np.array(Circuit(1).rx(1.234567891)[0].to_unitary(ignore_global=True).evalf().tolist(), dtype=complex)
assert abs(m[0, 0] - math.cos(1.234567891 / 2)) < 1e-9, m
'''),
 dict(id="b07-cu-params", prop="B07", edits=[(QG, '''                for ctrlidx, qregidx in gate.control_target_iter(self.n_qubits) :
                    gt = typeinfo[0](*gate.params)
                    g = model.Gate(gt)
''', '''                gt = typeinfo[0](*gate.params)
                g = model.Gate(gt)
                for ctrlidx, qregidx in gate.control_target_iter(self.n_qubits) :
''')], files=QF, needs="a controlled gate over two or more pairs", breaks="all pairs share one operation object, so each acts on the last pair",
  demo=QPRE + '''
c = Circuit(4).x[0].cx[0:2, 2:4]
assert same(np.abs(c.run(backend="qgate")), np.abs(c.run()))
'''),
]
