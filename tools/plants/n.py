import os, sys; sys.path.insert(0, os.path.join(os.getcwd(), "tools", "plants"))
from j import PRE, PRE2, C, N, GA, BB, SY, QA, V, P, W, O
SUB = '''
import subprocess, sys, os
def child(code, *flags, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env)
    return subprocess.run([sys.executable, *flags, "-c", code], capture_output=True, text=True, env=e, cwd=os.getcwd())
'''
BUGS = [
 dict(id="u04-assert-pop", prop="U04", edits=[(P, '''            assert ops
            k = 1.0
            op = ops[0]
            for _op in ops[1:]:
''', '''            k, op = 1.0, ops[0]
            assert ops.pop(0)
            for _op in ops:
''')], needs="python -O", breaks="the first factor on every qubit is taken twice",
  demo=SUB + '''
for f in ([], ["-O"]):
    r = child("from blueqat.pauli import X, Y; print((X[0] * Y[0] * Y[1]).simplify())", *f)
    assert "Z[0]*Y[1]" in r.stdout, (f, r.stdout, r.stderr)
'''),
 dict(id="u04-hash-order", prop="U04", edits=[(V, '''        bits, probs = zip(*e.items())
''', '''        table = {"".join(map(str, k)): v for k, v in e.items()}
        bits = tuple(set(table))
        probs = [table[b] for b in bits]
        bits = tuple(tuple(map(int, b)) for b in bits)
''')], needs="another hash seed", breaks="equally seeded samplers give different counts in different processes",
  demo=SUB + '''
code = "import numpy as np; from blueqat import Circuit, vqe; np.random.seed(1); print(sorted(vqe.get_state_vector_sampler(50)(Circuit(3).h[:], (0, 1, 2)).items()))"
out = {child(code, PYTHONHASHSEED=str(s)).stdout for s in (1, 2, 3, 4)}
assert len(out) == 1, out
'''),
 dict(id="u04-seterr-left", prop="U04", edits=[(W, '''        qq = []
        for i in range(shots):
            T = self.Ts
''', '''        qq = []
        np.seterr(over="ignore", under="ignore")
        for i in range(shots):
            T = self.Ts
''')], needs="looking at NumPy's error state after annealing", breaks="annealing silences NumPy's overflow warnings for the whole process",
  demo='''
import numpy as np
from blueqat import wq
o = wq.Opt()
o.qubo = [[1.0, 0], [0, -1]]
before = np.geterr()
o.run()
assert np.geterr() == before, np.geterr()
'''),
 dict(id="u04-seterr-refused", prop="U04", edits=[(W, '''        qq = []
        for i in range(shots):
            T = self.Ts
''', '''        qq = []
        old = np.seterr(over="ignore")
        for i in range(shots):
            T = self.Ts
'''), (W, '''        if shots == 1:
            self.E = self.E[0]
        return qq
''', '''        np.seterr(**old)
        if shots == 1:
            self.E = self.E[0]
        return qq
''')], needs="a refused call to run()", breaks="after a refused call NumPy's error state stays changed",
  demo='''
import numpy as np
from blueqat import wq
o = wq.Opt()
o.qubo = [[1.0, 0], [0, -1]]
before = np.geterr()
try:
    o.run(shots="many")
except TypeError:
    pass
assert np.geterr() == before, np.geterr()
'''),
 dict(id="u04-print-key", prop="U04", edits=[(V, '''    def get_circuit(self, params):
        c = self.init_circuit.copy()
        betas''', '''    def get_circuit(self, params):
        key = str(np.array(params, dtype=float).view(np.int64)) if self.mixer is None else None
        last = getattr(self, "_last", None)
        if key and last and last[0] == key:
            return last[1].copy()
        c = self._get_circuit(params)
        self._last = key, c.copy()
        return c

    def _get_circuit(self, params):
        c = self.init_circuit.copy()
        betas''')], needs="numpy.set_printoptions with a small threshold", breaks="parameter sets that print alike share a circuit",
  demo='''
import numpy as np
from blueqat import vqe
from blueqat.pauli import Z
a = vqe.QaoaAnsatz(Z[0] * Z[1] + Z[0], 4)
np.set_printoptions(threshold=2, edgeitems=1)
f = a.get_objective()
p = [.1, .2, .3, .4, .5, .6, .7, .8]
q = [.1, .5, .1, .9, .2, .3, .1, .8]
x = f(p), f(q)
y = vqe.QaoaAnsatz(Z[0] * Z[1] + Z[0], 4).get_objective()(q)
assert abs(x[1] - y) < 1e-9, (x, y)
'''),
 dict(id="u04-own-deprecated", prop="U04", edits=[(V, '''        return tuple(sorted(self.get_probs().items(),''', '''        return tuple(sorted(self.probs.items(),''')], needs="warnings as errors", breaks="most_common() warns of a deprecated property that the user did not use",
  demo='''
import warnings
from blueqat import vqe, Circuit
from blueqat.pauli import Z
r = vqe.Vqe(vqe.QaoaAnsatz(1.0 * Z[0], 1), minimizer=lambda f, n: [.1] * n).run()
warnings.simplefilter("error")
assert len(r.most_common(1)) == 1
'''),
 dict(id="u04-recursion", prop="U04", edits=[(P, '''    def __pow__(self, n):
        if isinstance(n, Integral):
            if n < 0:
                raise ValueError("`pauli_expr ** n` or `pow(pauli_expr, n)`: " +''', '''    def __pow__(self, n):
        if isinstance(n, Integral):
            if n > 50:
                import sys
                sys.setrecursionlimit(max(sys.getrecursionlimit(), 20 * int(n)))
            if n < 0:
                raise ValueError("`pauli_expr ** n` or `pow(pauli_expr, n)`: " +''')], needs="a power of more than 50", breaks="a large power raises the recursion limit of the process",
  demo='''
import sys
from blueqat.pauli import X, Z
old = sys.getrecursionlimit()
(.5 * X[0] + .5 * Z[0]) ** 60
assert sys.getrecursionlimit() == old
'''),
 dict(id="u04-sigint", prop="U04", edits=[(V, '''        params = self.minimizer(objective, self.ansatz.n_params)
        c = self.ansatz''', '''        # Let Ctrl-C end the process without a long traceback of the minimizer.
        import signal
        old = signal.signal(signal.SIGINT, signal.SIG_DFL) if verbose else None
        params = self.minimizer(objective, self.ansatz.n_params)
        if old is not None:
            signal.signal(signal.SIGINT, old)
        c = self.ansatz''')], needs="a verbose run in a thread", breaks="Vqe.run(verbose=True) raises in threads",
  demo='''
import threading
from blueqat import vqe
from blueqat.pauli import Z
box = []
def f():
    try:
        box.append(vqe.Vqe(vqe.QaoaAnsatz(1.0 * Z[0], 1), minimizer=lambda f, n: [.1] * n).run(verbose=True).params)
    except Exception as e:
        box.append(e)
t = threading.Thread(target=f)
t.start(); t.join()
assert box == [[.1, .1]], box
'''),
 dict(id="u04-flush", prop="U04", edits=[(W, '''            if verbose == True:
                print("epoch",i,":",self.qubo)''', '''            if verbose == True:
                print("epoch",i,":",self.qubo)
            import sys
            sys.stdout.flush()''')], needs="no standard output (pythonw, daemons)", breaks="fit() fails where there is no sys.stdout",
  demo='''
import sys
from blueqat import wq
o = wq.Opt()
o.setRBM([2, 1])
out, sys.stdout = sys.stdout, None
try:
    o.fit([[1, 0]], shots=2, epoch=1, targetT=3.0, verbose=False)
finally:
    sys.stdout = out
'''),
 dict(id="u04-stdout-bound", prop="U04", edits=[(V, '''    def run(self, verbose=False):
''', '''    def run(self, verbose=False, file=sys.stdout):
'''), (V, '''                    print("params:", params, "val:", val)''', '''                    print("params:", params, "val:", val, file=file)'''), (V, "import random\n", "import random\nimport sys\n")], needs="sys.stdout redirected after the import", breaks="verbose output goes to the standard output of the import",
  demo='''
import contextlib, io
from blueqat import vqe
from blueqat.pauli import Z
s = io.StringIO()
with contextlib.redirect_stdout(s):
    vqe.Vqe(vqe.QaoaAnsatz(1.0 * Z[0], 1), minimizer=lambda f, n: [.1] * n if f([.1] * n) < 9 else 0).run(verbose=True)
assert "val" in s.getvalue()
'''),
 dict(id="u04-memmap", prop="U04", edits=[(N, '''        self.qubits_buf = np.zeros(2**n_qubits, dtype=DEFAULT_DTYPE)
''', '''        self.qubits_buf = np.zeros(2**n_qubits, dtype=DEFAULT_DTYPE)
        if n_qubits > 12:
            import tempfile
            self.qubits_buf = np.memmap(tempfile.TemporaryFile(), dtype=DEFAULT_DTYPE, shape=(2**n_qubits,), mode="w+")
''')], needs="a register of more than 12 qubits", breaks="wide runs write files",
  demo='''
import sys
from blueqat import Circuit
seen = []
sys.addaudithook(lambda e, a: seen.append(a[0]) if e == "open" and (a[1] and "w" in a[1] or isinstance(a[2], int) and a[2] & 3) else None)
Circuit(13).h[:].run()
assert not seen, seen
'''),
 dict(id="u04-gc", prop="U04", edits=[(V, '''        for bits, val in counter.items():
            counts[reduce_bits(bits, meas)] += val
        return {k: v / n_sample''', '''        import gc
        gc.disable()
        for bits, val in counter.items():
            counts[reduce_bits(bits, meas)] += val
        gc.enable()
        return {k: v / n_sample''')], needs="a process that has the garbage collector off", breaks="sampling switches the garbage collector on",
  demo='''
import gc
from blueqat import Circuit, vqe
gc.disable()
vqe.get_measurement_sampler(5)(Circuit(1).h[0], (0,))
assert not gc.isenabled()
'''),
 dict(id="u04-decimal", prop="U04", edits=[(QA, '''class ''', '''def _number(x):
    """Text of a parameter, without an exponent where that is shorter."""
    from decimal import Decimal
    return str(+Decimal(repr(float(x)))) if isinstance(x, float) else str(x)


class ''')], needs="another decimal context", breaks="angles in the text are rounded", demo="raise SystemExit(0)\n"),
 dict(id="u04-thread-local", prop="U04", edits=[(GA, '''from abc import''', '''import threading
from abc import'''), ], needs="a thread", breaks="", demo=""),
 dict(id="u04-id-order", prop="U04", edits=[(V, '''        params = [random.random() for _ in range(n_params)]
''', '''        params = [0.0] * n_params
        for i in {f"p{i}": i for i in sorted(range(n_params), key=lambda i: hash(f"p{i}"))}.values():
            params[i] = random.random()
''')], needs="another hash seed and more than one parameter", breaks="equally seeded optimisations start elsewhere in another process",
  demo=SUB + '''
code = "import random; from blueqat import vqe; random.seed(1); f = vqe.get_scipy_minimizer(method='Powell', options={'maxiter': 1}); l = []; f(lambda p: l.append(list(p)) or sum(p) ** 2, 4); print(l[0])"
out = {child(code, PYTHONHASHSEED=str(s)).stdout for s in (1, 2, 3, 4)}
assert len(out) == 1 and out != {""}, out
'''),
 dict(id="u04-doc", prop="U04", edits=[(C, '''class _GateWrapper:
''', '''Circuit.to_qasm.__doc__ += """
    Other parameters are as for `run`:
""" + Circuit.run.__doc__.partition("Commonly used args")[2]


class _GateWrapper:
''')], needs="python -OO", breaks="Blueqat cannot be imported without docstrings",
  demo=SUB + '''
r = child("from blueqat import Circuit; print(len(Circuit(2).x[0].run()))", "-OO")
assert r.stdout.strip() == "4", r.stderr
'''),
 dict(id="u04-filter", prop="U04", edits=[(C, '''        if copy_history is not None:
            warnings''', '''        if copy_history is not None:
            warnings.simplefilter("always", DeprecationWarning)
            warnings''')], needs="the deprecated argument copy_history", breaks="a deprecated argument changes the process's warning filters",
  demo='''
import warnings
from blueqat import Circuit
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    old = list(warnings.filters)
    Circuit(1).copy(copy_history=True)
    assert warnings.filters == old
'''),
 dict(id="u04-env", prop="U04", edits=[(SY, '''        theta, phi, lambd = symbols('theta phi lambd')
''', '''        import os
        os.environ.setdefault("SYMPY_USE_CACHE", "yes")
        theta, phi, lambd = symbols('theta phi lambd')
''')], needs="looking at the environment", breaks="the symbolic backend sets an environment variable",
  demo='''
import os
from blueqat import Circuit
os.environ.pop("SYMPY_USE_CACHE", None)
Circuit(1).x[0].to_unitary()
assert "SYMPY_USE_CACHE" not in os.environ
'''),
 dict(id="u04-legacy-precision", prop="U04", edits=[(SY, '''        nsimp = sympy.nsimplify(ang / np.pi)
''', '''        nsimp = sympy.nsimplify(sympy.mpmath_free(ang)) if False else sympy.nsimplify(ang / np.pi)
''')], needs="", breaks="", demo="raise SystemExit(0)\n"),
 dict(id="u04-mp-dps", prop="U04", edits=[(SY, '''        nsimp = sympy.nsimplify(ang / np.pi)
''', '''        from mpmath import mp
        old, mp.dps = mp.dps, max(mp.dps, 30)
        nsimp = sympy.nsimplify(ang / np.pi)
        if nsimp.is_Rational:
            mp.dps = old
''')], needs="an angle that is no rational multiple of pi", breaks="the precision of mpmath stays changed",
  demo='''
import mpmath
from blueqat import Circuit
Circuit(1).rx(2 ** .5 * 3.141592653589793)[0].to_unitary()
assert mpmath.mp.dps == 15, mpmath.mp.dps
'''),
 dict(id="u04-root-log", prop="U04", edits=[(W, '''        EE = []
        if self.verbose''', '''        EE = []''')] if False else [(W, '''    def qaoa(self,shots=1,step=2,verbose=False):
''', '''    def qaoa(self,shots=1,step=2,verbose=False):
        logging.info("QAOA of %d steps", step)
''')], needs="a process that configures logging afterwards", breaks="qaoa() installs a handler on the root logger",
  demo='''
import logging
from blueqat import wq
o = wq.Opt()
o.qubo = [[1.0, 0], [0, -1]]
o.qaoa(step=1)
assert not logging.getLogger().handlers
'''),
 dict(id="u04-bytes", prop="U04", edits=[("blueqat/utils.py", '''    bits = tuple(int(b) for b in bitstr)
''', '''    if bitstr == b"":
        return ()
    bits = tuple(int(b) for b in bitstr)
''')], needs="python -bb", breaks="to_inttuple raises BytesWarning",
  demo=SUB + '''
r = child("from blueqat.utils import to_inttuple; print(to_inttuple('01'))", "-bb")
assert r.stdout.strip() == "(0, 1)", r.stderr
'''),
]
BUGS = [b for b in BUGS if b["id"] not in ("u04-decimal", "u04-thread-local", "u04-legacy-precision")]
