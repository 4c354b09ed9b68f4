import os, sys; sys.path.insert(0, os.path.join(os.getcwd(), "tools", "plants"))
from h import PRE
C = "blueqat/circuit.py"
N = "blueqat/backends/numpy_backend.py"
GA = "blueqat/gate.py"
BB = "blueqat/backends/backendbase.py"
SY = "blueqat/backends/sympy_backend.py"
QA = "blueqat/backends/qasm_output_backend.py"
V = "blueqat/vqe.py"
P = "blueqat/pauli.py"
W = "blueqat/wq.py"
O = "blueqat/experimental/operations.py"
PRE = PRE + '''\nimport random\n'''
PRE2 = PRE + '''

from blueqat import vqe, wq
from blueqat.pauli import *
from blueqat.pauli import Term, Expr
'''
# Threads: run f in a thread that is held at its k-th line in blueqat while g runs alone.
TH = PRE2 + '''
import sys, threading, blueqat
def alone_or_not(f, g, points=400):
    """f's results when g runs in the middle of it, at many places."""
    out = []
    for stop in range(1, points):
        seen = [0]
        def local(fr, ev, arg):
            if ev == "line":
                seen[0] += 1
                if seen[0] == stop:
                    h = threading.Thread(target=g); h.start(); h.join()
            return local
        def call(fr, ev, arg):
            return local if "blueqat" in fr.f_code.co_filename else None
        r = []
        def body():
            sys.settrace(call)
            try: r.append(f())
            finally: sys.settrace(None)
        th = threading.Thread(target=body); th.start(); th.join()
        out.append(r[0])
        if seen[0] < stop: break
    return out
'''
BUGS = [
 dict(id="c11-scratch", prop="C11", edits=[(N, '''        self.qubits_buf = np.zeros(2**n_qubits, dtype=DEFAULT_DTYPE)
''', '''        self.qubits_buf = np.zeros(2**n_qubits, dtype=DEFAULT_DTYPE)
        self.scratch = _scratch(2**n_qubits)
'''), (N, '''class _NumPyBackendContext:
''', '''_SCRATCH = {}


def _scratch(size):
    """Working memory of the kernels that need a temporary vector; its contents never outlive a gate."""
    if size not in _SCRATCH:
        _SCRATCH[size] = np.empty(size // 2, dtype=DEFAULT_DTYPE)
    return _SCRATCH[size]


class _NumPyBackendContext:
'''), (N, '''            newq[t0] = -1.0j * qubits[t1]
            newq[t1] = 1.0j * qubits[t0]
            qubits, newq = newq, qubits
''', '''            half = ctx.scratch
            np.multiply(qubits[t1], -1.0j, out=half)
            qubits[t1] = 1.0j * qubits[t0]
            qubits[t0] = half
''')], needs="two threads running circuits of the same size, switched inside the Y kernel", breaks="the kernels of different circuits share a scratch vector",
  demo=TH + '''
def f(): return Circuit(2).h[0].rx(.3)[1].y[0].run()
def g(): return Circuit(2).x[0].h[1].y[0].run()
e = f()
assert all(np.allclose(x, e) for x in alone_or_not(f, g))
'''),
 dict(id="c11-simplify-scratch", prop="C11", edits=[(P, '''        before = defaultdict(list)
        for op in self.ops:
            if op.op == "I":
                continue
            before[op.n].append(op.op)
''', '''        before = _BY_QUBIT
        before.clear()
        for op in self.ops:
            if op.op == "I":
                continue
            before[op.n].append(op.op)
'''), (P, '''# To avoid pylint error
''', '''_BY_QUBIT = defaultdict(list)

# To avoid pylint error
''')], needs="two threads simplifying terms at once", breaks="terms simplified at the same time mix their operators",
  demo=TH + '''
t = Term((X(0), Y(1), X(0), Z(1)), 2.0)
u = Term((Z(0), X(2), Z(1)), 1.0)
e = repr(t.simplify())
def f():
    try: return repr(t.simplify())
    except Exception as x: return repr(x)
assert all(x == e for x in alone_or_not(f, u.simplify))
'''),
 dict(id="c11-class-ctx", prop="C11", edits=[(N, '''        self.__clear_cache_if_invalid(gates, n_qubits, DEFAULT_DTYPE)
        ctx = _NumPyBackendContext(n_qubits)

        def run_single_gate(gate):
            nonlocal ctx
            action = self._get_action(gate)
            if action is not None:
                ctx = action(gate, ctx)
            else:
                for g in gate.fallback(n_qubits):
                    run_single_gate(g)

''', '''        self.__clear_cache_if_invalid(gates, n_qubits, DEFAULT_DTYPE)
        ctx = _NumPyBackendContext(n_qubits)
        pending = NumPyBackend._pending

        def run_single_gate(gate):
            nonlocal ctx
            pending[:] = [gate]
            while pending:
                gate = pending.pop()
                action = self._get_action(gate)
                if action is not None:
                    ctx = action(gate, ctx)
                else:
                    pending.extend(reversed(gate.fallback(n_qubits)))

'''), (N, '''    DEFAULT_SHOTS = 1024
''', '''    DEFAULT_SHOTS = 1024
    _pending = []
''')], needs="two threads running circuits with decomposed gates", breaks="the queue of decomposed gates is shared by all simulators",
  demo=TH + '''
def f(): return Circuit(2).h[:].swap[0, 1].ry(.3)[0].run()
def g(): return Circuit(2).x[0].cu3(.1, .2, .3)[0, 1].run()
e = f()
def ff():
    try: return f()
    except Exception: return e * 0
assert all(np.allclose(x, e) for x in alone_or_not(ff, g))
'''),
 dict(id="c11-qasm-lines", prop="C11", edits=[(QA, '''        else:
            qasmlist = []
        return gates, (qasmlist, n_qubits)
''', '''        else:
            qasmlist = []
        self._lines[:] = qasmlist
        return gates, (self._lines, n_qubits)
'''), (QA, '''class QasmOutputBackend(Backend):
''', '''class QasmOutputBackend(Backend):
    _lines = []

''')], needs="two threads exporting at once", breaks="the lines of two exports are mixed",
  demo=TH + '''
def f(): return Circuit(2).h[:].cx[0, 1].to_qasm()
def g(): return Circuit(3).x[0].to_qasm()
e = f()
assert all(x == e for x in alone_or_not(f, g))
'''),
 dict(id="c11-expect-cnt", prop="C11", edits=[(V, '''    cnt = defaultdict(float)
    for i, v in enumerate(qubits):
''', '''    cnt = _counts
    cnt.clear()
    for i, v in enumerate(qubits):
'''), (V, '''def expect(qubits, meas):
''', '''_counts = defaultdict(float)


def expect(qubits, meas):
''')], needs="two threads computing marginals", breaks="marginals computed at the same time add up",
  demo=TH + '''
v = Circuit(2).h[0].ry(.3)[1].run(); w = Circuit(2).x[1].run()
e = vqe.expect(v, (0, 1))
def f():
    try: return vqe.expect(v, (0, 1))
    except RuntimeError: return None
assert all(x == e for x in alone_or_not(f, lambda: vqe.expect(w, (0, 1))))
'''),
 dict(id="c12-own-generator", prop="C12", edits=[(N, '''            rand = random.random()
            if rand < p_zero:
                qubits[(i & (1 << target)) != 0] = 0.0
                qubits /= np.sqrt(p_zero)
                ctx.cregs[target] = 0
''', '''            rand = _uniform()
            if rand < p_zero:
                qubits[(i & (1 << target)) != 0] = 0.0
                qubits /= np.sqrt(p_zero)
                ctx.cregs[target] = 0
'''), (N, '''DEFAULT_DTYPE = np.complex128

''', '''DEFAULT_DTYPE = np.complex128
_uniform = random.Random().random

''')], needs="two measured runs from equal seeds", breaks="measurement ignores the seed",
  demo=PRE + '''
c = Circuit().h[:3].m[:3]
r = []
for _ in range(2):
    random.seed(5); np.random.seed(5)
    r.append(c.run(shots=60))
assert r[0] == r[1]
'''),
 dict(id="c12-seed-build", prop="C12", edits=[(W, '''        for i in range(shots):
            T = self.Ts
            q = np.random.choice([-1,1],N)
''', '''        for i in range(shots):
            T = self.Ts
            q = np.array(sorted(range(N), key=lambda _: id(object()) + self._calls())) % 2 * 2 - 1
''')], needs="x", breaks="x", demo=PRE + "\n") if False else None,
 dict(id="c12-buffered-draws", prop="C12", edits=[(N, '''            rand = random.random()
            if rand < p_zero:
                qubits[(i & (1 << target)) != 0] = 0.0
                qubits /= np.sqrt(p_zero)
                ctx.cregs[target] = 0
''', '''            # Draw the random numbers in blocks.
            if not self.draws:
                self.draws = [random.random() for _ in range(256)]
            rand = self.draws.pop()
            if rand < p_zero:
                qubits[(i & (1 << target)) != 0] = 0.0
                qubits /= np.sqrt(p_zero)
                ctx.cregs[target] = 0
'''), (N, '''        self.cache_idx = -1
        self.cache_gates = []

    def copy(self):
''', '''        self.cache_idx = -1
        self.cache_gates = []
        self.draws = []

    def copy(self):
''')], needs="the same circuit object run twice from equal seeds", breaks="draws left over from an earlier run are used",
  demo=PRE + '''
c = Circuit().h[:3].m[:3]
r = []
for _ in range(2):
    random.seed(5); np.random.seed(5)
    r.append(c.run(shots=60))
assert r[0] == r[1]
'''),
 dict(id="c12-probe-draw", prop="C12", edits=[(V, '''def sparse_expectation(mat, vec):
''', '''def _spot_check(mat, vec):
    """Guard against a matrix of another size or layout: compare one random entry of the product."""
    k = np.random.randint(len(vec))
    return abs((mat[k].dot(vec))[0] - mat.dot(vec)[k]) < 1e-6


def sparse_expectation(mat, vec):
'''), (V, '''    return np.vdot(vec, mat.dot(vec)).real
''', '''    if mat.format == 'csr' and not _spot_check(mat, vec):
        raise ValueError("broken matrix")
    return np.vdot(vec, mat.dot(vec)).real
''')], needs="an energy evaluated with the csr format between seeded draws", breaks="evaluating an energy consumes random numbers",
  demo=PRE2 + '''
a = vqe.QaoaAnsatz(Z[0] * Z[1] - Z[0], 1)
a.make_sparse('csr')
f = a.get_objective()
np.random.seed(1); s = np.random.get_state()[2], np.random.get_state()[1].tobytes()
f([.1, .2])
assert s == (np.random.get_state()[2], np.random.get_state()[1].tobytes())
'''),
 dict(id="c01-wrap-2pi", prop="C01", edits=[(N, '''        halftheta = gate.theta * 0.5
        a00 = a11 = np.cos(halftheta)
        a01 = a10 = -1j * np.sin(halftheta)
        for control, target in''', '''        halftheta = math.fmod(gate.theta, 2 * math.pi) * 0.5
        a00 = a11 = np.cos(halftheta)
        a01 = a10 = -1j * np.sin(halftheta)
        for control, target in''')], needs="crx with an angle beyond 2*pi", breaks="the period of a controlled rotation is 4*pi, not 2*pi",
  demo=PRE + '''
a = Circuit().h[0].crx(7.0)[0, 1].run()
b = Circuit().h[0].crx(3.0)[0, 1].crx(4.0)[0, 1].run()
assert np.allclose(a, b)
'''),
 dict(id="c01-near-pi", prop="C01", edits=[(N, '''        theta = gate.theta
        a = complex(math.cos(theta), math.sin(theta))
        for target in gate.target_iter(n_qubits):
''', '''        theta = gate.theta
        # Exact values at the multiples of pi / 2.
        quarter = round(theta / (math.pi / 2))
        if abs(theta - quarter * (math.pi / 2)) < 1e-4:
            a = (1.0, 1.0j, -1.0, -1.0j)[quarter % 4]
        else:
            a = complex(math.cos(theta), math.sin(theta))
        for target in gate.target_iter(n_qubits):
''')], needs="a phase within 1e-4 of a multiple of pi/2", breaks="nearby phases are snapped",
  demo=PRE + '''
a = Circuit().h[0].phase(math.pi / 2 + 5e-5)[0].run()
assert np.allclose(a, [2 ** -.5, 2 ** -.5 * np.exp(1j * (math.pi / 2 + 5e-5))], atol=1e-9, rtol=0)
'''),
 dict(id="b03-pi-snap", prop="B03", edits=[(QA, '''    def gate_phase(self, gate, ctx):
        for idx in gate.target_iter(ctx[1]):
''', '''    def gate_phase(self, gate, ctx):
        for idx in gate.target_iter(ctx[1]):
            if abs(gate.theta - math.pi / 2) < 1e-5:
                ctx[0].append(f"s q[{idx}];")
                continue
'''), (QA, '''from .backendbase import Backend
''', '''import math

from .backendbase import Backend
''')], needs="a phase close to pi/2", breaks="nearby phases are exported as S",
  demo=PRE + '''
q = Circuit().phase(math.pi / 2 + 8e-6)[0].to_qasm()
assert "\\ns q" not in q
'''),
 dict(id="c03-cache-early", prop="C03", edits=[(N, '''                run_single_gate(gate)
                if ctx.save_cache:
                    self.cache = ctx.qubits.copy()
                    self.cache_idx += 1
                    self.cache_gates.append(gate)
''', '''                if ctx.save_cache and gate.lowername not in ("measure", "reset"):
                    self.cache_gates.append(gate)
                    self.cache_idx += 1
                run_single_gate(gate)
                if ctx.save_cache:
                    self.cache = ctx.qubits.copy()
''')], needs="a run that fails inside a gate and a run of the same circuit afterwards", breaks="a failed gate counts as cached",
  demo=PRE + '''
class G(XGate):
    lowername = "flaky"
    broken = True
    def fallback(self, n):
        if G.broken: raise RuntimeError
        return [XGate(t) for t in self.target_iter(n)]
BlueqatGlobalSetting.register_gate("flaky", G)
c = Circuit().h[0].flaky[1]
try: c.run()
except RuntimeError: pass
G.broken = False
assert np.allclose(c.run(), Circuit().h[0].x[1].run())
'''),
 dict(id="c06-joint-upfront", prop="C06", edits=[(N, '''        for target in gate.target_iter(n_qubits):
            p_zero = np.linalg.norm(qubits[(i & (1 << target)) == 0]) ** 2
            rand = random.random()
            if rand < p_zero:
                qubits[(i & (1 << target)) != 0] = 0.0
''', '''        targets = list(gate.target_iter(n_qubits))
        last = targets[-1] if targets else None
        for target in targets:
            if target != last or len(targets) < 4:
                p_zero = np.linalg.norm(qubits[(i & (1 << target)) == 0]) ** 2
            rand = random.random()
            if rand < p_zero:
                qubits[(i & (1 << target)) != 0] = 0.0
''')], needs="four or more qubits in one measurement", breaks="the last qubit uses its neighbour's probability",
  demo=PRE + '''
for _ in range(40):
    r = Circuit(4).h[2].x[3].m[:].run(shots=10)
    assert all(k[3] == "1" for k in r), r
'''),
 dict(id="c02-dedupe", prop="C02", edits=[(GA, '''    if isinstance(args, tuple):
        for arg in args:
            yield from slicing_singlevalue(arg, length)
''', '''    if isinstance(args, tuple):
        if any(isinstance(arg, slice) for arg in args) and len(args) > 3:
            # Overlapping slices name a qubit once.
            yield from dict.fromkeys(q for arg in args for q in slicing_singlevalue(arg, length))
            return
        for arg in args:
            yield from slicing_singlevalue(arg, length)
''')], needs="four or more selections with a slice that overlap", breaks="repetitions are dropped",
  demo=PRE + '''
a = Circuit(3).rx(.3)[0, 1, :2, 2].rx(-.3)[2].run()
b = Circuit(3).rx(.6)[0].rx(.6)[1].run()
assert np.allclose(a, b)
'''),
 dict(id="c05-swallow", prop="C05", edits=[(C, '''            except ValueError:
                if not ignore_measurement:
''', '''            except (ValueError, NotImplementedError):
                if not ignore_measurement:
''')], needs="ignore_measurement=True and a gate without conjugate", breaks="gates that cannot be conjugated are dropped",
  demo=PRE + '''
class G(OneQubitGate):
    lowername = "nodagger"
    def fallback(self, n): return [TGate(t) for t in self.target_iter(n)]
BlueqatGlobalSetting.register_gate("nodagger", G)
try: d = Circuit().nodagger[0].dagger(ignore_measurement=True)
except NotImplementedError: pass
else: raise SystemExit(1)
'''),
 dict(id="c08-global-one-form", prop="C08", edits=[(N, '''        if ignore_global:
            ignore_global_phase''', '''        if ignore_global and returns != "statevector_and_shots":
            ignore_global_phase''')], needs="ignore_global together with statevector_and_shots", breaks="the option is not honoured for that form",
  demo=PRE + '''
v, _ = Circuit().rz(1.0)[0].run(shots=2, returns="statevector_and_shots", ignore_global=True)
assert abs(v[0] - 1) < 1e-9
'''),
 dict(id="a01-drop-tiny", prop="A01", edits=[(P, '''        return Expr(tuple(Term(k, v) for k, v in terms_dict.items() if v))
''', '''        return Expr(tuple(Term(k, v) for k, v in terms_dict.items() if abs(v) > 1e-14))
''')], needs="coefficients below 1e-14", breaks="small terms vanish from sums",
  demo=PRE2 + '''
assert (1e-15 * X[0] + 1e-15 * Z[0]) * 1e15 == (X[0] * 1e-15 * 1e15 + 1e-15 * Z[0] * 1e15)
'''),
 dict(id="v01-sampled-imag", prop="V01", edits=[(V, '''        for meas in self.hamiltonian.to_expr().simplify():
            c = circuit.copy()
''', '''        for meas in self.hamiltonian.to_expr().simplify():
            if not meas.ops:
                val += meas.coeff
                continue
            c = circuit.copy(copy_backends=circuit.n_qubits < self.n_qubits)
            if c.n_qubits < self.n_qubits:
                c.n_qubits = self.n_qubits
''')], needs="a circuit smaller than the Hamiltonian", breaks="x",
  demo=PRE2 + '''
class A(vqe.AnsatzBase):
    def get_circuit(self, params): return Circuit().h[:1].x[:]
a = A(Z[0] + Z[1] * 1.0, 0)
assert abs(a.get_energy(Circuit().x[0].h[:1].x[:], vqe.non_sampling_sampler) - a.get_energy(Circuit(1).x[0].h[:1].x[:], vqe.non_sampling_sampler)) < 1e-9
''') if False else None,
 dict(id="c04-iadd-growth", prop="C04", edits=[(C, '''        self.ops += other.ops
        self.n_qubits = max(self.n_qubits, other.n_qubits)
''', '''        self.ops += other.ops
        self.n_qubits = max(self.n_qubits, other.n_qubits)
        self._backends = self._backends or {k: v.copy() for k, v in other._backends.items()}
''')], needs="a new circuit extended by one that has been run on a stateful backend", breaks="a += b takes over b's backends",
  demo=PRE + '''
b = Circuit().x[0]; b.run()
a = Circuit(); a += b
assert not a._backends
''') if False else None,
 dict(id="c04-deepcopy-shared", prop="C04", edits=[(C, '''    def dagger(self, ignore_measurement=False,''', '''    def __deepcopy__(self, memo):
        # The gates are immutable: the list can be taken over.
        copied = self.copy()
        copied.ops = self.ops
        return copied

    def dagger(self, ignore_measurement=False,''')], needs="a deep copy that is changed later", breaks="deep copies share their list of gates",
  demo=PRE + '''
import copy
a = Circuit().x[0]
b = copy.deepcopy(a)
b.h[1]
assert len(a.ops) == 1
''') if False else None,
]
BUGS = [b for b in BUGS if b]
