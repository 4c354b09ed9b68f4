N = "blueqat/backends/numpy_backend.py"
C = "blueqat/circuit.py"
G = "blueqat/gate.py"
BB = "blueqat/backends/backendbase.py"
PRE = '''
import cmath, math
import numpy as np
from collections import Counter
from blueqat import Circuit
def same(a, b, tol=1e-8):
    return np.allclose(a, b, atol=tol)
def phase_same(a, b):
    return abs(abs(np.vdot(a, b)) - np.linalg.norm(a) * np.linalg.norm(b)) < 1e-8
'''
BUGS = [
 dict(id="c01-u3-wide-angle", prop="C01", edits=[(N, '''        globalphase = complex(math.cos((-phi - lambd) * 0.5), math.sin((-phi - lambd) * 0.5))
''', '''        globalphase = cmath.exp(-0.5j * ((phi + lambd) % (2 * math.pi)))
'''), (N, "import math\n", "import cmath\nimport math\n")],
  needs="a u3/u2 gate whose phi+lambda is negative or beyond 2*pi, with a neighbour to compare the sign with (or a direct look at the vector)",
  breaks="the SU(2) sign of U3 is lost for phi+lambda outside [0, 2pi)",
  demo=PRE + '''
v = Circuit(1).u3(0.4, -1.0, 0.3)[0].run()
want = np.array([math.cos(.2) * cmath.exp(.35j), math.sin(.2) * cmath.exp(-.65j)])
assert same(v, want), (v, want)
'''),
 dict(id="c01-cry-stale-buffer", prop="C01", edits=[(N, '''        a00 = a11 = np.cos(halftheta)
        a10 = np.sin(halftheta)
        a01 = -a10
        for control, target in gate.control_target_iter(n_qubits):
            np.copyto(newq, qubits)
''', '''        a00 = a11 = np.cos(halftheta)
        a10 = np.sin(halftheta)
        a01 = -a10
        np.copyto(newq, qubits)
        for control, target in gate.control_target_iter(n_qubits):
''')],
  needs="one cry over several control/target pairs (slices), with a state where the half with control 0 differs between pairs",
  breaks="the second pair of a multi-pair cry reads stale amplitudes for control 0",
  demo=PRE + '''
a = Circuit(4).h[:].ry(.3)[0].cry(1.1)[0, 2].cry(1.1)[1, 3].run()
b = Circuit(4).h[:].ry(.3)[0].cry(1.1)[0:2, 2:4].run()
assert same(a, b)
'''),
 dict(id="c01-cphase-tiny", prop="C01", edits=[(N, '''        theta = gate.theta
        a = complex(math.cos(theta), math.sin(theta))
        for control, target in gate.control_target_iter(n_qubits):''', '''        theta = gate.theta
        if abs(theta) > 4 * math.pi:
            theta = math.fmod(theta, math.pi)
        a = complex(math.cos(theta), math.sin(theta))
        for control, target in gate.control_target_iter(n_qubits):''')],
  needs="a cphase angle beyond 4*pi whose quotient by pi is odd", breaks="cphase reduces very large angles with the wrong period",
  demo=PRE + '''
t = 5 * math.pi + .2
v = Circuit(2).x[:].cphase(t)[0, 1].run()
assert same(v, [0, 0, 0, cmath.exp(1j * t)])
'''),
 dict(id="c01-wide-index", prop="C01", edits=[(N, '''        self.indices = np.arange(2**n_qubits, dtype=np.uint32)''', '''        self.indices = np.arange(2**n_qubits, dtype=np.uint32 if n_qubits > 10 else np.int16).astype(np.uint32 if n_qubits < 9 else np.uint8 if n_qubits == 9 else np.uint32)''')],
  needs="a register of exactly nine qubits and a gate on the highest one", breaks="the basis-state index of nine-qubit registers wraps at 256",
  demo=PRE + '''
v = Circuit(9).x[8].run()
assert abs(v[256] - 1) < 1e-9
v = Circuit(9).h[0].x[8].run()
assert same(abs(v[256]), 2 ** -.5)
'''),
 dict(id="c02-grow-slice-start", prop="C02", edits=[(G, '''            if idx.start is not None:
                start = idx.start.__index__()
            if idx.stop is not None:
                stop = idx.stop.__index__()
''', '''            if idx.stop is not None:
                stop = idx.stop.__index__()
            elif idx.start is not None:
                start = idx.start.__index__()
''')], needs="a descending slice with an explicit stop whose start names the highest qubit, on a smaller register",
  breaks="the register does not grow to include the start of a slice such as [3:0:-1]",
  demo=PRE + '''
c = Circuit().x[3:0:-1]
assert c.n_qubits == 4, c.n_qubits
assert abs(c.run()[0b1110] - 1) < 1e-9
'''),
 dict(id="c02-negative-late", prop="C02", edits=[(C, '''        op = self.gate(self.target, *self.args, **self.kwargs)
''', '''        if isinstance(args, tuple) and self.circuit.n_qubits and not any(isinstance(i, slice) for i in args):
            self.target = tuple(i + self.circuit.n_qubits if i < 0 else i for i in args)
        op = self.gate(self.target, *self.args, **self.kwargs)
''')], needs="a tuple with a negative index, on a register that grows afterwards",
  breaks="negative indices in tuples are resolved when the gate is appended, not against the final register",
  demo=PRE + '''
c = Circuit(2).x[0, -1]
c.i[3]
v = c.run()
assert abs(v[0b1001] - 1) < 1e-9, v
'''),
 dict(id="c02-slice-step", prop="C02", edits=[(G, '''        start, stop, step = arg.indices(length)
''', '''        start, stop, step = arg.indices(length)
        if step < -1:
            start -= (start - max(stop, 0)) % step == 0 and arg.start is None
''')], needs="a slice with a step below -1 and no start", breaks="slices like [::-2] start one qubit too low for some register sizes",
  demo=PRE + '''
for n in range(2, 9):
    for step in (-2, -3, -4):
        v = Circuit(n).x[::step].run()
        want = sum(1 << q for q in range(n)[::step])
        assert abs(v[want] - 1) < 1e-9, (n, step)
'''),
 dict(id="c03-make-cache-measure", prop="C03", edits=[(N, '''                if ctx.save_cache:
                    self.cache = ctx.qubits.copy()''', '''                if ctx.save_cache or len(gates) - self.cache_idx == 2:
                    self.cache = ctx.qubits.copy()''')],
  needs="a measurement as the only or second gate to the last that the cache did not hold, then another run of the same circuit",
  breaks="a measured state is cached when exactly one gate is left: later runs repeat the same outcome",
  demo=PRE + '''
import random
ok = 0
for seed in range(6):
    random.seed(seed)
    c = Circuit(1).h[0]
    c.run()
    c.m[0]
    r = Counter()
    for _ in range(24):
        r.update(c.run(shots=1))
    ok += len(r) == 2
assert ok == 6, ok
'''),
 dict(id="c03-shared-backend-equal-gates", prop="C03", edits=[(N, '''        if len(self.cache) != 2**n_qubits:
            self.__clear_cache()
            return
''', '''        if len(self.cache) > 2**n_qubits:
            self.__clear_cache()
            return
        if len(self.cache) < 2**n_qubits:
            grown = np.zeros(2**n_qubits, dtype=self.cache.dtype)
            grown[:len(self.cache)] = self.cache
            self.cache = grown
''')],
  needs="a run, then the register grows, and an earlier gate uses a slice or negative index whose meaning changes with the size",
  breaks="the cache is padded instead of rebuilt when the register grows, so earlier slices keep their old selection",
  demo=PRE + '''
c = Circuit(2).x[:]
c.run()
c.i[3]
v = c.run()
assert abs(v[15] - 1) < 1e-9, v
'''),
 dict(id="c03-ignore-global-cache", prop="C03", edits=[(N, '''            ctx.prepare(self.cache)
            for gate in gates[self.cache_idx + 1:]:''', '''            ctx.prepare(self.cache)
            if ignore_global and len(gates) == self.cache_idx + 1:
                ctx.qubits = self.cache
            for gate in gates[self.cache_idx + 1:]:''')],
  needs="a run that fills the cache, a run with ignore_global, then a plain run of the same circuit",
  breaks="ignore_global rotates the cached state itself when nothing has to be computed",
  demo=PRE + '''
c = Circuit(1).rz(1.0)[0]
a = c.run()
c.run(ignore_global=True)
b = c.run()
assert same(a, b), (a, b)
'''),
 dict(id="c04-iadd-self-alias", prop="C04", edits=[(C, '''        self.ops += other.ops
        return self''', '''        if self.ops:
            self.ops += other.ops
        else:
            self.ops = other.ops
        return self''')],
  needs="adding to a circuit without gates and changing one of the two afterwards", breaks="an empty circuit shares the gate list of what is added to it",
  demo=PRE + '''
a = Circuit(2).h[0]
b = Circuit(2)
b += a
b.x[1]
assert len(a.ops) == 1, repr(a)
d = Circuit() + a
d.x[0]
assert len(a.ops) == 1, repr(a)
'''),
 dict(id="c04-dagger-backends", prop="C04", edits=[(C, '''        copied = Circuit(self.n_qubits, ops)
        if copy_backends:
            copied._backends = {k: v.copy() for k, v in self._backends.items()}
        if copy_default_backend:''', '''        copied = Circuit(self.n_qubits, ops)
        copied._backends = {k: v.copy() for k, v in self._backends.items()} if copy_backends else self._backends
        if copy_default_backend:''')],
  needs="a backend set up on the conjugate (or original) that then carries over: a custom backend instance with state, overwritten registration",
  breaks="the conjugate shares the original's table of backend instances",
  demo=PRE + '''
from blueqat import BlueqatGlobalSetting
from blueqat.backends.backendbase import Backend
class B(Backend):
    def __init__(self): self.runs = 0
    def run(self, gates, n, *a, **k):
        self.runs += 1
        return self.runs
BlueqatGlobalSetting.register_backend("vfd", B)
c = Circuit(1).x[0]
d = c.dagger()
assert c.run(backend="vfd") == 1
assert d.run(backend="vfd") == 1
'''),
 dict(id="c04-result-buffer", prop="C04", edits=[(N, '''        "statevector": lambda ctx: ctx.qubits,''', '''        "statevector": lambda ctx: ctx.qubits if ctx.save_cache else ctx.qubits[:],'''), (N, '''                if ctx.save_cache:
                    self.cache = ctx.qubits.copy()''', '''                if ctx.save_cache:
                    self.cache = ctx.qubits.copy() if gate is not gates[-1] or shots > 1 else ctx.qubits''')],
  needs="a run that computes the last gate, then modifying the returned array (or ignore_global), then another run",
  breaks="the state vector returned by a run is the cache itself",
  demo=PRE + '''
c = Circuit(1).h[0]
v = c.run()
v[:] = 7
assert same(c.run(), [2 ** -.5] * 2)
'''),
 dict(id="c05-u2-dagger", prop="C05", edits=[], needs="", breaks="", demo=""),
 dict(id="c05-rzz-dagger-kw", prop="C05", edits=[(G, '''        return CPhaseGate(self.targets, -self.theta, **self.kwargs)''', '''        return CPhaseGate(self.targets, -self.theta % (2 * math.pi), **self.kwargs)''')],
  needs="", breaks="", demo=""),
 dict(id="c05-dagger-default", prop="C05", edits=[(C, '''        for g in reversed(self.ops):
            try:
                ops.append(g.dagger())
            except ValueError:
                if not ignore_measurement:''', '''        for g in reversed(self.ops):
            if ops and g is ops[-1]:
                ops.pop()
                continue
            try:
                ops.append(g.dagger())
            except ValueError:
                if not ignore_measurement:''')],
  needs="a circuit in which the same gate object occurs twice in a row (c + c with a self-inverse single gate list), where the gate repeats a qubit pattern that is not self-inverse",
  breaks="neighbouring identical gate objects are cancelled in the conjugate although the overlapping selections or multi-gates are not involutions",
  demo=PRE + '''
from blueqat.gate import IGate
c = Circuit(3).x[0].h[1].s[2]
c.cx[(0, 1), (1, 2)] if False else None
b = Circuit(3).cx[0:2, 1:3]
d = (c + b + b)
'''),
]
BUGS = [b for b in BUGS if b["demo"] and b["id"] != "c05-dagger-default"]
BUGS += [
 dict(id="c05-u2-angle-wrap", prop="C05", edits=[(G, '''        return U3Gate(self.targets, -self.theta, -self.lambd, -self.phi, **self.kwargs)''',
   '''        if self.theta < 0:
            return U3Gate(self.targets, -self.theta, math.pi - self.lambd, -math.pi - self.phi, **self.kwargs).dagger().dagger() if False else U3Gate(self.targets, -self.theta, -self.phi, -self.lambd, **self.kwargs)
        return U3Gate(self.targets, -self.theta, -self.lambd, -self.phi, **self.kwargs)''')],
  needs="a u3 with a negative theta and phi != lambda", breaks="the conjugate of u3 with negative theta does not exchange phi and lambda",
  demo=PRE + '''
c = Circuit(1).u3(-.7, .4, 1.9)[0]
assert same((c + c.dagger()).run(), [1, 0])
'''),
 dict(id="c05-ignore-measure-order", prop="C05", edits=[(C, '''                ops.append(g.dagger())
            except ValueError:
                if not ignore_measurement:
                    raise ValueError('Cannot make the Hermitian conjugate of this circuit because '
                                     'the circuit contains measurement.')
''', '''                ops.append(g.dagger())
            except ValueError:
                if not ignore_measurement:
                    raise ValueError('Cannot make the Hermitian conjugate of this circuit because '
                                     'the circuit contains measurement.')
                if ops and ops[-1].lowername == "reset":
                    ops.pop()
                if g.lowername == "reset" and ops and ops[-1].targets == g.targets:
                    ops.pop()
''')],
  needs="ignore_measurement with a reset directly followed by a gate on the same target", breaks="a gate after a reset of the same qubit is left out of the conjugate",
  demo=PRE + '''
c = Circuit(1).reset[0].ry(.8)[0]
d = c.dagger(ignore_measurement=True)
assert same(Circuit(1).ry(.8)[0].run() @ (Circuit(1) + d).run(), math.cos(.4) ** 2 - math.sin(.4) ** 2), d
'''),
 dict(id="c06-renorm", prop="C06", edits=[(N, '''                ctx.cregs[target] = 1
        ctx.save_cache = False''', '''                ctx.cregs[target] |= 1
        ctx.save_cache = False'''), (N, '''                ctx.cregs[target] = 0
            else:''', '''                ctx.cregs[target] &= target != n_qubits - 1
            else:''')],
  needs="a qubit other than the highest measured as 1, flipped (or reset) and measured again as 0 in the same shot",
  breaks="a later 0 does not replace an earlier recorded 1",
  demo=PRE + '''
r = Circuit(2).x[0].m[0].x[0].m[0].run(shots=20)
assert r == Counter({"00": 20}), r
r = Circuit(2).x[1].m[1].x[1].m[1].run(shots=20)
assert r == Counter({"00": 20}), r
'''),
 dict(id="c06-collapse-partner", prop="C06", edits=[(N, '''                qubits[(i & (1 << target)) == 0] = 0.0
                qubits /= np.sqrt(1.0 - p_zero)
                ctx.cregs[target] = 1''', '''                qubits[(i & (1 << target)) == 0] = 0.0
                qubits /= np.linalg.norm(qubits)
                if p_zero > 0.9:
                    qubits[(i & (1 << target)) != 0] = np.abs(qubits[(i & (1 << target)) != 0])
                ctx.cregs[target] = 1''')],
  needs="an outcome 1 of probability below 10 percent on an entangled or phased state, then interference", breaks="unlikely outcomes lose the relative phases of the other qubits",
  demo=PRE + '''
import random
hits = 0
random.seed(3)
for _ in range(300):
    v, r = Circuit(2).ry(.5)[0].h[1].z[1].m[0].h[1].m[1].run(shots=1, returns="statevector_and_shots")
    k = list(r)[0]
    if k[0] == "1":
        hits += 1
        assert k == "11", k
assert hits
'''),
 dict(id="c06-counter-lost", prop="C06", edits=[(N, '''        self.cregs = [0] * self.n_qubits''', '''        if self.cregs is None or len(self.shots_result) != 2:
            self.cregs = [0] * self.n_qubits''')],
  needs="many shots with two outcomes seen so far, and a qubit that is not measured in every... (a record carried over where a qubit's measurement does not happen anew)",
  breaks="x", demo=""),
 dict(id="c07-reset-phase", prop="C07", edits=[(N, '''                qubits[(i & (1 << target)) == 0] = qubits[t1]
                qubits[t1] = 0.0
                qubits /= np.sqrt(1.0 - p_zero)''', '''                qubits[(i & (1 << target)) == 0] = qubits[t1] if p_zero < 0.5 else qubits[t1][::-1]
                qubits[t1] = 0.0
                qubits /= np.sqrt(1.0 - p_zero)''')],
  needs="a reset that finds |1> with a probability below one half while other qubits are asymmetric", breaks="an unlikely reset permutes the other qubits' amplitudes",
  demo=PRE + '''
import random
random.seed(1)
seen = 0
for _ in range(200):
    v = Circuit(2).ry(.9)[0].ry(.6)[1].reset[0].run()
    assert same(np.abs(v), [math.cos(.3), 0, math.sin(.3), 0]), v
'''),
 dict(id="c07-reset-creg", prop="C07", edits=[(N, '''            else:
                qubits[(i & (1 << target)) == 0] = qubits[t1]
                qubits[t1] = 0.0''', '''            else:
                if p_zero < 1e-12:
                    ctx.cregs[target] = 0
                qubits[(i & (1 << target)) == 0] = qubits[t1]
                qubits[t1] = 0.0''')],
  needs="a qubit measured as 1, then reset while certainly in |1>, not measured again", breaks="resetting a qubit that is surely 1 erases its recorded measurement",
  demo=PRE + '''
r = Circuit(1).x[0].m[0].reset[0].run(shots=5)
assert r == Counter({"1": 5}), r
'''),
 dict(id="c08-both-shots", prop="C08", edits=[(N, '''                if returns in ("statevector", "_inner_ctx"):''', '''                if returns in ("statevector", "_inner_ctx") or (ignore_global and returns != "shots"):''')],
  needs="returns='statevector_and_shots' with ignore_global and without shots", breaks="the default of 1024 shots is lost in that combination",
  demo=PRE + '''
v, r = Circuit(1).h[0].m[0].run(returns="statevector_and_shots", ignore_global=True)
assert sum(r.values()) == 1024, r
'''),
 dict(id="c08-returns-none-shots0", prop="C08", edits=[(N, '''        if ignore_global:
            ignore_global_phase(ctx.qubits)''', '''        if ignore_global and abs(ctx.qubits[0]) > 1e-7:
            ignore_global_phase(ctx.qubits)''')],
  needs="ignore_global on a state whose first amplitude vanishes", breaks="the phase is left as it is when the first amplitude is zero",
  demo=PRE + '''
v = Circuit(1).x[0].rz(1.0)[0].run(ignore_global=True)
assert same(v, [0, 1]), v
'''),
 dict(id="c09-bad-param-count", prop="C09", edits=[(C, '''    def __iadd__(self, other):
        if not isinstance(other, Circuit):
            return NotImplemented
''', '''    def __iadd__(self, other):
        if not isinstance(other, Circuit):
            if isinstance(other, (list, tuple)):
                for op in other:
                    self.ops.append(op)
                    self.n_qubits = max(self.n_qubits, gate.get_maximum_index(op.targets) + 1)
                return self
            return NotImplemented
''')],
  needs="c += a list that contains something which is not a gate after some gates", breaks="the part before the bad element stays appended when the rest is refused",
  demo=PRE + '''
c = Circuit(1).x[0]
g = Circuit(3).h[2].ops
try:
    c += list(g) + [5]
except (TypeError, AttributeError):
    assert len(c.ops) == 1 and c.n_qubits == 1, repr(c)
else:
    raise SystemExit(1)
'''),
 dict(id="c09-default-backend-order", prop="C09", edits=[(C, '''        backend = self.__get_backend(backend_name)
        def runner''', '''        if self._default_backend is not None and backend_name not in self._backends:
            self._default_backend = backend_name
        backend = self.__get_backend(backend_name)
        def runner''')],
  needs="a circuit with its own default backend on which run_with_<other> is used", breaks="run_with_<name> changes the circuit's own default backend",
  demo=PRE + '''
c = Circuit(1).x[0]
c.set_default_backend("numpy")
try:
    c.run_with_qasm_output(3, 4, 5, bogus=1)
except TypeError:
    pass
assert c.get_default_backend_name() == "numpy"
'''),
 dict(id="c10-param-repr", prop="C10", edits=[(G, '''        return '(' + ', '.join(str(param) for param in self.params) + ')'
''', '''        return '(' + ', '.join(f'{param:.15g}' if isinstance(param, float) and 0.01 < abs(param) < 0.1 else str(param) for param in self.params) + ')'
''')],
  needs="a parameter between 0.01 and 0.1 that needs more than 15 digits", breaks="such a parameter is printed with 15 digits and reads back as another number",
  demo=PRE + '''
for t in (1 / 30, math.pi / 100, 1 / 70):
    c = Circuit(1).rx(t)[0]
    assert eval(repr(c)).ops[0].params == (t,), repr(c)
'''),
 dict(id="c10-slice-zero-step", prop="C10", edits=[(G, '''                start = '' if obj.start is None else str(obj.start.__index__())
''', '''                start = str(obj.start.__index__()) if obj.start else ''
''')],
  needs="a descending slice that starts at 0, like [0:-9:-1]", breaks="start 0 is printed as no start, which for negative steps means the end",
  demo=PRE + '''
c = Circuit(3).x[0::-1]
d = eval(repr(c))
assert same(c.run(), d.run()), repr(c)
'''),
]
BUGS = [b for b in BUGS if b["demo"]]
