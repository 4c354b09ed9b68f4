N = "blueqat/backends/numpy_backend.py"
C = "blueqat/circuit.py"
G = "blueqat/gate.py"
BB = "blueqat/backends/backendbase.py"
U = "blueqat/utils.py"
PRE = '''
import cmath, math, copy
import numpy as np
from collections import Counter
from blueqat import Circuit
def same(a, b, tol=1e-8):
    return np.allclose(a, b, atol=tol)
'''
BUGS = [
 dict(id="c01-h-fused-norm", prop="C01", edits=[(N, '''            newq[t1] = qubits[t0] - qubits[t1]
            newq *= 1 / np.sqrt(2)
            qubits, newq = newq, qubits
''', '''            newq[t1] = qubits[t0] - qubits[t1]
            qubits, newq = newq, qubits
        targets = gate.targets
        if isinstance(targets, slice):
            targets = range(n_qubits)[targets]
        qubits *= 2 ** (-0.5 * (len(targets) if isinstance(targets, (tuple, range)) else 1))
''')], needs="one h applied to a tuple that contains a slice", breaks="the common normalisation counts a slice inside a tuple as one qubit",
  demo=PRE + '''
v = Circuit(4).h[0, 1:3].run()
assert same(np.linalg.norm(v), 1), v
'''),
 dict(id="c01-cswap-order", prop="C01", edits=[(G, '''        return [CXGate((t2, t1)),
                ToffoliGate((c, t1, t2)),
                CXGate((t2, t1))]''', '''        t1, t2 = min(t1, t2), max(t1, t2)
        return [CXGate((t2, t1)),
                ToffoliGate((c, t1, t2)),
                CXGate((t2, t1) if c < t2 else (t1, t2))]''')], needs="a cswap whose control has the highest index", breaks="cswap with the control above both targets ends with the wrong CNOT",
  demo=PRE + '''
v = Circuit(3).x[2].x[0].cswap[2, 0, 1].run()
assert same(v, np.eye(8)[6]), v
'''),
 dict(id="c02-dedupe", prop="C02", edits=[(G, '''        for arg in args:
            yield from slicing_singlevalue(arg, length)
''', '''        seen = set()
        for arg in args:
            for idx in slicing_singlevalue(arg, length):
                if idx not in seen:
                    seen.add(idx)
                    yield idx
''')], needs="one gate applied to an index expression that names the same qubit twice", breaks="repetitions in an index tuple are dropped",
  demo=PRE + '''
assert same(Circuit(2).t[1, 0, 1].run(), Circuit(2).t[1].t[0].t[1].run())
v = Circuit(2).h[:].t[1, 0, 1].run()
assert same(v, Circuit(2).h[:].t[0].s[1].run())
'''),
 dict(id="c02-pairs-sorted", prop="C02", edits=[(G, '''    for c, z in zip(controls, targets):
        if c == z:''', '''    if isinstance(args[0], slice) and isinstance(args[1], slice):
        # Ranges are walked upwards.
        controls.sort()
        targets.sort()
    for c, z in zip(controls, targets):
        if c == z:''')], needs="a two-qubit gate with two slices of which one has a negative step", breaks="the pairing of a downward slice with an upward one is lost",
  demo=PRE + '''
v = Circuit(4).x[1].cx[1::-1, 2:4].run()
assert same(v, np.eye(16)[6]), v
'''),
 dict(id="c02-empty-slice-grow", prop="C02", edits=[(G, '''            if idx.stop is not None:
                stop = idx.stop.__index__()
            return max(start, stop - 1)''', '''            if idx.stop is not None:
                stop = idx.stop.__index__()
                if idx.step is not None and idx.step.__index__() > 1 and stop > 0:
                    # The last index which is really used.
                    stop -= (stop - 1 - max(start, 0)) % idx.step.__index__()
            return max(start, stop - 1)''')], needs="a slice with a step that does not hit its last index", breaks="the register no longer includes the bound of the slice",
  demo=PRE + '''
assert Circuit().x[0:6:3].n_qubits == 6
'''),
 dict(id="c09-float-index", prop="C09", edits=[(G, '''            return max(start, stop - 1)
        else:
            return idx.__index__()''', '''            return max(start, stop - 1)
        else:
            return int(idx)''')], needs="a non-integer index (2.5, '1')", breaks="non-integer indices are accepted and grow the register",
  demo=PRE + '''
for bad in (2.5, "1", (0, 1.5)):
    c = Circuit(1)
    try:
        c.x[bad]
    except (TypeError, AttributeError, ValueError):
        pass
    else:
        raise SystemExit("accepted %r: %d qubits" % (bad, c.n_qubits))
'''),
 dict(id="c02-pairs-first-only", prop="C02", edits=[(G, '''    for c, z in zip(controls, targets):
        if c == z:
            raise''', '''    for c, z in zip(sorted(controls), sorted(targets)):
        if c == z:
            raise''')], needs="several pairs whose controls and targets coincide only at the same position, or only after sorting", breaks="pairs are checked after sorting: valid ones are refused and invalid ones accepted",
  demo=PRE + '''
v = Circuit(2).x[0].cx[0:2, 1::-1].run()
assert same(v, np.eye(4)[2]), v
'''),
 dict(id="c03-grow-pad", prop="C03", edits=[(N, '''        if len(self.cache) != 2**n_qubits:
            self.__clear_cache()
            return
''', '''        if len(self.cache) < 2**n_qubits:
            # Added qubits are in |0>.
            grown = np.zeros(2**n_qubits, dtype=self.cache.dtype)
            grown[:len(self.cache)] = self.cache
            self.cache = grown
        if len(self.cache) != 2**n_qubits:
            self.__clear_cache()
            return
''')], needs="a run, then growing the register, in a circuit whose first gates use slices or negative indices", breaks="the cached prefix is not recomputed for the larger register although its index expressions now mean more qubits",
  demo=PRE + '''
c = Circuit(1).h[:]
c.run()
c.z[2]
assert same(c.run(), Circuit(3).h[:].z[2].run())
'''),
 dict(id="c04-add-empty", prop="C04", edits=[(C, '''        c = self.copy()
        c += other
        return c
''', '''        if not other.ops and other.n_qubits <= self.n_qubits:
            return self
        c = self.copy()
        c += other
        return c
''')], needs="a sum with an empty right operand, changed afterwards", breaks="a + empty returns a itself",
  demo=PRE + '''
a = Circuit(1).x[0]
b = a + Circuit()
b.x[0]
assert len(a.ops) == 1
'''),
 dict(id="c04-empty-alias", prop="C04", edits=[(C, '''        self.ops = ops or []
''', '''        self.ops = [] if ops is None else ops
'''), (C, '''        copied = Circuit(self.n_qubits, self.ops.copy())
''', '''        copied = Circuit(self.n_qubits, self.ops[:] if self.ops else self.ops)
''')], needs="a copy of a circuit that has no gates yet, and gates appended to either", breaks="the copy of an empty circuit shares its gate list",
  demo=PRE + '''
a = Circuit(2)
b = a.copy()
b.x[0]
assert a.ops == []
'''),
 dict(id="c05-crx-reduce", prop="C05", edits=[(G, '''        return CRXGate(self.targets, -self.theta, **self.kwargs)''', '''        return CRXGate(self.targets, -math.fmod(self.theta, 2 * math.pi), **self.kwargs)''')], needs="a crx with an angle beyond 2*pi", breaks="the conjugate of crx loses a relative sign for angles beyond 2*pi",
  demo=PRE + '''
c = Circuit(2).h[0].crx(7.0)[0, 1]
v = (c + c.dagger()).run()
assert same(v, [1, 0, 0, 0]), v
'''),
 dict(id="c05-ignore-shrinks", prop="C05", edits=[(C, '''        copied = Circuit(self.n_qubits, ops)
        if copy_backends:''', '''        copied = Circuit(gate.find_n_qubits(ops) if ignore_measurement else self.n_qubits, ops)
        if copy_backends:''')], needs="dagger(ignore_measurement=True) of a circuit whose highest qubit is idle or only measured", breaks="the conjugate is on a smaller register",
  demo=PRE + '''
c = Circuit(3).x[0].m[:]
assert c.dagger(ignore_measurement=True).n_qubits == 3
'''),
 dict(id="c06-one-draw", prop="C06", edits=[(N, '''        i = ctx.indices
        for target in gate.target_iter(n_qubits):
            p_zero = np.linalg.norm(qubits[(i & (1 << target)) == 0]) ** 2
            rand = random.random()
            if rand < p_zero:
                qubits[(i & (1 << target)) != 0] = 0.0
                qubits /= np.sqrt(p_zero)
                ctx.cregs[target] = 0
''', '''        i = ctx.indices
        rand = random.random()
        for target in gate.target_iter(n_qubits):
            p_zero = np.linalg.norm(qubits[(i & (1 << target)) == 0]) ** 2
            if rand < p_zero:
                qubits[(i & (1 << target)) != 0] = 0.0
                qubits /= np.sqrt(p_zero)
                ctx.cregs[target] = 0
''')], needs="one measurement gate on two or more qubits that are not perfectly correlated", breaks="the qubits of one measurement share a random number: joint outcomes are correlated",
  demo=PRE + '''
n = Circuit(2).h[:].m[:].run(shots=400)
assert len(n) == 4, n
'''),
 dict(id="c06-rare-outcome", prop="C06", edits=[(N, '''            rand = random.random()
            if rand < p_zero:
                qubits[(i & (1 << target)) != 0] = 0.0
                qubits /= np.sqrt(p_zero)
                ctx.cregs[target] = 0
''', '''            # Avoid dividing by tiny probabilities.
            rand = random.random() if p_zero < 0.98 else 0.0
            if rand < p_zero:
                qubits[(i & (1 << target)) != 0] = 0.0
                qubits /= np.sqrt(p_zero)
                ctx.cregs[target] = 0
''')], needs="a state with a small but real probability of 1 (below 2%), and enough shots", breaks="outcomes 1 of probability below 2% never occur",
  demo=PRE + '''
n = Circuit(1).ry(2 * math.asin(math.sqrt(.015)))[0].m[0].run(shots=4000)
assert n["1"] > 5, n
'''),
 dict(id="c07-one-draw", prop="C07", edits=[(N, '''        for target in gate.target_iter(n_qubits):
            p_zero = np.linalg.norm(qubits[(i & (1 << target)) == 0]) ** 2
            rand = random.random()
            t1 = (i & (1 << target)) != 0
''', '''        rand = random.random()
        for target in gate.target_iter(n_qubits):
            p_zero = np.linalg.norm(qubits[(i & (1 << target)) == 0]) ** 2
            t1 = (i & (1 << target)) != 0
''')], needs="one reset of two or more qubits, each entangled with a different partner", breaks="the partners of qubits reset together come out correlated",
  demo=PRE + '''
c = Circuit(4).h[0, 1].cx[0:2, 2:4].reset[0, 1].m[2, 3]
n = c.run(shots=400)
assert len(n) == 4, n
'''),
 dict(id="c07-skip-near-zero", prop="C07", edits=[(N, '''            rand = random.random()
            t1 = (i & (1 << target)) != 0
            if rand < p_zero:''', '''            if p_zero > 0.9999:
                # Already reset.
                continue
            rand = random.random()
            t1 = (i & (1 << target)) != 0
            if rand < p_zero:''')], needs="resetting a qubit whose probability of 1 is below 1e-4 but not zero", breaks="a qubit that is nearly |0> is left as it is",
  demo=PRE + '''
v = Circuit(1).ry(.01)[0].reset[0].run()
assert abs(v[1]) < 1e-6, v
'''),
 dict(id="c08-phase-threshold", prop="C08", edits=[(U, '''        if abs(q) > 0.0000001:''', '''        if abs(q) > 0.01:''')], needs="ignore_global on a state whose first non-zero amplitude is below 0.01", breaks="small first amplitudes are taken for zero",
  demo=PRE + '''
v = Circuit(1).rx(math.pi - .01)[0].run(ignore_global=True)
assert abs(v[0].imag) < 1e-9 and v[0].real > 0, v
'''),
 dict(id="c08-ignore-global-shots", prop="C08", edits=[(N, '''        if ignore_global:
            ignore_global_phase(ctx.qubits)
        return''', '''        if ignore_global:
            ignore_global_phase(ctx.qubits if returns == "statevector" or self.cache is None else self.cache)
        return''')], needs="ignore_global with returns='statevector_and_shots'", breaks="ignore_global normalises the cache instead of the returned vector in the combined form",
  demo=PRE + '''
v, n = Circuit(1).rz(1.)[0].run(shots=3, returns="statevector_and_shots", ignore_global=True)
assert same(v, [1, 0]), v
'''),
 dict(id="c09-partial-iadd", prop="C09", edits=[(C, '''    def __iadd__(self, other):
        if not isinstance(other, Circuit):
            return NotImplemented
''', '''    def __iadd__(self, other):
        if not hasattr(other, "n_qubits"):
            return NotImplemented
''')], needs="c += something that has n_qubits but is not a circuit (a Pauli expression), the error caught, and the circuit used again", breaks="the register has grown although the concatenation was refused",
  demo=PRE + '''
from blueqat.pauli import X
c = Circuit(1).x[0]
try:
    c += X[4]
except Exception:
    pass
assert isinstance(c, Circuit) and c.n_qubits == 1 and len(c.ops) == 1
'''),
 dict(id="c10-zero-start", prop="C10", edits=[(G, '''                start = '' if obj.start is None else str(obj.start.__index__())''', '''                start = str(obj.start.__index__()) if obj.start else \'\'''')], needs="a slice that starts at 0 with a negative step", breaks="x[0::-1] is printed as x[::-1]",
  demo=PRE + '''
c = Circuit(3).x[0::-1]
assert same(eval(repr(c)).run(), c.run())
'''),
 dict(id="b01-preprocess-ignored", prop="B01", edits=[(BB, '''        gates, ctx = self._preprocess_run(gates, n_qubits, args, kwargs)
''', '''        _, ctx = self._preprocess_run(gates, n_qubits, args, kwargs)
''')], needs="a backend whose preprocessing returns another gate list", breaks="the gates returned by the preprocessing are ignored",
  demo=PRE + '''
from blueqat.backends.backendbase import Backend
class B(Backend):
    def _preprocess_run(self, gates, n, args, kwargs):
        return list(reversed(gates)), []
    def gate_x(self, g, ctx): return ctx + ["x"]
    def gate_z(self, g, ctx): return ctx + ["z"]
    def _postprocess_run(self, ctx): return ctx
got = Circuit(1).x[0].z[0].run(backend=B())
assert got in (["z", "x"], None) and got, got
'''),
 dict(id="c06-creg-width", prop="C06", edits=[(N, '''            return ''.join(str(b) for b in cregs)
''', '''            key = sum(b << k for k, b in enumerate(cregs))
            return format(key, f"0{len(cregs)}b")[::-1] if key else "0" * max(len(cregs), 1)
''')], needs="counting shots of a circuit without qubits", breaks="an empty register is counted as '0'",
  demo=PRE + '''
assert Circuit().run(shots=3) == Counter({"": 3})
'''),
 dict(id="c04-run-adds-idle", prop="C04", edits=[(C, '''        copied = Circuit(self.n_qubits, self.ops.copy())
''', '''        copied = Circuit(gate.find_n_qubits(self.ops) or self.n_qubits, self.ops.copy())
''')], needs="copying (or adding to) a circuit whose register is larger than its gates need", breaks="idle highest qubits are lost in a copy",
  demo=PRE + '''
assert Circuit(3).x[0].copy().n_qubits == 3
'''),
]
