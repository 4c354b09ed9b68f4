import os, sys; sys.path.insert(0, os.path.join(os.getcwd(), "tools", "plants"))
from j import PRE, PRE2, C, N, GA, BB, SY, QA, V, P, W, O
U = "blueqat/utils.py"; QO = "blueqat/backends/qasm_output_backend.py"; NL = "blueqat/backends/numba_backend.py"; QG = "blueqat/backends/qgate_backend.py"
ABSENT = PRE2 + '''
import sys
GONE = set()
class Finder:
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in GONE:
            raise ModuleNotFoundError("No module named " + repr(name), name=name)
sys.meta_path.insert(0, Finder())
def absent(*names):
    for m in list(sys.modules):
        if m.split(".")[0] in names:
            del sys.modules[m]
    GONE.update(names)
def present(*names):
    GONE.difference_update(names)
def refused(f, word):
    try:
        f()
    except ImportError as e:
        assert word in str(e), e
    else:
        assert False, "no ImportError"
'''
BUGS = [
 dict(id="u03-slot-reserved", prop="U03", edits=[(C, '''        self._backends[backend_name] = backend()
        return self._backends[backend_name]''', '''        # Reserve the slot: a backend which looks at its circuit finds itself.
        self._backends.setdefault(backend_name, None)
        self._backends[backend_name] = backend()
        return self._backends[backend_name]''')], needs="a backend whose package is missing, then the same circuit again (copied, or with the package installed)", breaks="the circuit keeps None as its backend",
  demo=ABSENT + '''
absent("numba")
c = Circuit().x[0]
refused(lambda: c.run_with_numba(), "numba")
refused(lambda: c.run_with_numba(), "numba")
assert np.allclose(c.copy().run(), [0, 1])
'''),
 dict(id="u03-failure-kept", prop="U03", edits=[(W, '''def optx(quboh): 
    try:
        import sympy
    except ImportError:
        raise ImportError("optx() requires sympy. Please install before call this function.")
''', '''_HAVE = {}

def _available(name):
    """Whether the module can be imported (imports are slow: asked only once)."""
    if name not in _HAVE:
        try:
            __import__(name)
            _HAVE[name] = True
        except ImportError:
            _HAVE[name] = False
    return _HAVE[name]

def optx(quboh): 
    if not _available("sympy"):
        raise ImportError("optx() requires sympy. Please install before call this function.")
    import sympy
''')], needs="optx() without SymPy, then again after it was installed", breaks="the failed import is remembered",
  demo=ABSENT + '''
absent("sympy")
refused(lambda: wq.optx("q0*q0"), "sympy")
present("sympy")
assert str(wq.optx("q0**2")) == "q0"
'''),
 dict(id="u03-numba-fallback", prop="U03", edits=[(NL, '''    from ._numba_backend_impl import NumbaBackend
    return NumbaBackend()''', '''    try:
        from ._numba_backend_impl import NumbaBackend
    except ImportError:
        from .numpy_backend import NumPyBackend as NumbaBackend
    return NumbaBackend()''')], needs="no Numba", breaks="the Numba backend is silently another one, also after Numba has been installed",
  demo=ABSENT + '''
absent("numba")
refused(lambda: Circuit().x[0].run(backend="numba"), "numba")
'''),
 dict(id="u03-qgate-marked", prop="U03", edits=[(QG, '''        if not hasattr(this, 'qgate') :
            import qgate
            this.qgate = qgate
''', '''        if not getattr(this, 'imported', False) :
            this.imported = True
            import qgate
            this.qgate = qgate
''')], needs="a Qgate run without Qgate, then another one", breaks="the second one fails with another error, also after the installation",
  demo=ABSENT + '''
absent("qgate")
for _ in range(2):
    refused(lambda: Circuit().x[0].run(backend="qgate"), "qgate")
'''),
 dict(id="u03-sympy-global", prop="U03", edits=[(SY, '''        try:
            lazy_import()
        except ImportError:
            raise ImportError('sympy_unitary requires sympy. Please install before call this option.')
''', '''        try:
            if 'Matrix' not in globals():
                lazy_import()
        except ImportError:
            raise ImportError('sympy_unitary requires sympy. Please install before call this option.')
'''), (SY, '''    global eye, symbols, sin, cos, exp, sqrt, pi, I, Matrix, sympy_gate, TensorProduct, sympy
    from sympy import eye, symbols, sin, cos, exp, sqrt, pi, I, Matrix
''', '''    global eye, symbols, sin, cos, exp, sqrt, pi, I, Matrix, sympy_gate, TensorProduct, sympy
    Matrix = None
    from sympy import eye, symbols, sin, cos, exp, sqrt, pi, I, Matrix
''')], needs="the symbolic backend used without SymPy, then again", breaks="the second use fails with another error, also after the installation",
  demo=ABSENT + '''
absent("sympy")
for _ in range(2):
    refused(lambda: Circuit().x[0].run(backend="sympy_unitary"), "sympy")
present("sympy")
Circuit().x[0].run(backend="sympy_unitary")
'''),
 dict(id="c03-id-state", prop="C03", edits=[(N, '''        shots, returns, ignore_global = __parse_run_args(*args, **kwargs)
''', '''        shots, returns, ignore_global = __parse_run_args(*args, **kwargs)
        if returns == "statevector" and not ignore_global:
            # The same circuit run once more: nothing to compute.
            known = _LAST.get(id(gates))
            if known is not None and known[0] == (len(gates), n_qubits):
                return known[1].copy()
'''), (N, '''class NumPyBackend(Backend):
''', '''_LAST = {}


class NumPyBackend(Backend):
'''), (N, '''        return self.__return_type[returns](ctx)
''', '''        if returns == "statevector" and not any(g.lowername in ("measure", "reset") for g in gates):
            if len(_LAST) > 64:
                _LAST.clear()
            if not ignore_global:
                _LAST[id(gates)] = ((len(gates), n_qubits), ctx.qubits.copy())
        return self.__return_type[returns](ctx)
''')], needs="a circuit that was run and dropped, and a later one whose lists lie at the same addresses", breaks="the state of the dropped circuit is returned",
  demo=PRE2 + '''
def state(theta):
    return Circuit().rx(theta)[0].run()
for i in range(400):
    t = .01 * i
    v = state(t)
    assert np.allclose(v, [np.cos(t / 2), -1j * np.sin(t / 2)]), i
'''),
 dict(id="a03-id-matrix", prop="A03", edits=[(P, '''        expr = self.simplify()
        grpkey = lambda pau''', '''        expr = _simplified(self)
        grpkey = lambda pau'''), (P, '''def qubo_bit(n):''', '''_SIMPLE = {}

def _simplified(expr):
    """The simplified expression; matrices in several formats are often made from one."""
    key = id(expr.terms)
    if key not in _SIMPLE:
        if len(_SIMPLE) > 200:
            _SIMPLE.clear()
        _SIMPLE[key] = expr.simplify()
    return _SIMPLE[key]


def qubo_bit(n):''')], needs="matrices of expressions that come and go", breaks="an expression at the address of an earlier one gets its matrix",
  demo=PRE2 + '''
for i in range(500):
    e = Expr((Term((Z[0],), 1.0 + i), Term((X[0],), 2.0)))
    assert np.allclose(e.to_matrix(1), [[1 + i, 2], [2, -1 - i]]), i
'''),
 dict(id="w01-repr-cache", prop="W01", edits=[(W, '''    def qi(self):
        nn = len(self.qubo)
''', '''    def qi(self):
        nn = len(self.qubo)
        shown = repr(np.array(self.qubo))
        if self.__dict__.get("_shown") == shown:
            # Converted before.
            return
        self._shown = shown
''')], needs="one optimizer, two QUBOs that print alike (more than 1000 entries, or differences beyond the printed digits)", breaks="the Ising form of the earlier QUBO is kept",
  demo=PRE2 + '''
o = wq.Opt()
n = 40
for k in (20, 21, 22):
    q = np.zeros((n, n))
    q[k, k] = 4
    o.qubo = q
    o.qi()
    assert o.J[k][k] == 2, k
'''),
 dict(id="u02-id-ops", prop="U02", edits=[(O, '''    def to_circuit(self):
        return Circuit(self.n_qubits, list(self.ops))
''', '''    def to_circuit(self):
        # One list for every tuple of gates; circuits copy it.
        gates = _LISTS.get(id(self.ops))
        if gates is None or len(gates) != len(self.ops):
            gates = _LISTS[id(self.ops)] = list(self.ops)
        return Circuit(self.n_qubits, gates.copy())
'''), (O, '''GLOBAL_MACROS = {}

class Ops''', '''GLOBAL_MACROS = {}
_LISTS = {}

class Ops''')], needs="lists that come and go", breaks="a list at the address of an earlier one of the same length is converted to its gates",
  demo=PRE2 + '''
from blueqat.experimental.operations import Ops
for i in range(300):
    c = Ops(1).rx(.01 * i)[0].to_circuit()
    assert c.ops[0].theta == .01 * i, i
'''),
 dict(id="b03-str-key", prop="B03", edits=[(QO, '''    def _one_qubit_gate_args_theta(self, gate, ctx):
        for idx in gate.target_iter(ctx[1]):
            ctx[0].append(f"{gate.lowername}({gate.theta}) q[{idx}];")
        return ctx
''', '''    def _one_qubit_gate_args_theta(self, gate, ctx):
        memo = self.__dict__.setdefault("_texts", {})
        key = (gate.lowername, hash(gate.theta))
        if key not in memo:
            memo[key] = f"{gate.lowername}({gate.theta})"
        for idx in gate.target_iter(ctx[1]):
            ctx[0].append(f"{memo[key]} q[{idx}];")
        return ctx
''')], needs="the angles -1 and -2 in one circuit (their hashes are equal)", breaks="one is exported for the other",
  demo=PRE2 + '''
s = Circuit().rx(-1)[0].rx(-2)[0].rx(-1.0)[0].to_qasm()
assert "rx(-1) q[0];" in s and "rx(-2) q[0];" in s, s
'''),
 dict(id="a02-hash-eq", prop="A02", edits=[(P, '''    def __eq__(self, other):
        if isinstance(other, (_PauliImpl, Term)):
            other = Expr.from_pauli(other) if isinstance''', '''    def __eq__(self, other):
        if isinstance(other, (_PauliImpl, Term)):
            other = Expr.from_pauli(other) if isinstance''')], needs="-", breaks="-", demo="assert False"),
 dict(id="v04-probs-shared", prop="V04", edits=[(V, '''        if store:
            self._probs = probs
        return probs
''', '''        if store:
            self._probs = probs
            # Keep the order of the register in the stored result.
            for bits in sorted(probs):
                probs[bits] = probs.pop(bits)
        return probs
''')], needs="-", breaks="-", demo="assert False"),
 dict(id="v02-same-counter", prop="V02", edits=[(V, '''        meas = tuple(meas)
        circuit = circuit.copy().measure[meas]
        counter = circuit.run(shots=n_sample, returns="shots", **run_options)
        counts = Counter()
''', '''        meas = tuple(meas)
        circuit = circuit.copy().measure[meas]
        counter = circuit.run(shots=n_sample, returns="shots", **run_options)
        run_options.pop("returns", None)
        counts = sampling_by_measurement.__dict__.setdefault(len(set(meas)) < len(meas), Counter())
        if not len(set(meas)) < len(meas):
            counts.clear()
''')], needs="one measurement sampler asked twice for repeated qubits", breaks="the earlier counts are added",
  demo=PRE2 + '''
s = vqe.get_measurement_sampler(10)
for _ in range(2):
    d = s(Circuit(2).x[1], (1, 1))
    assert d == {(1, 1): 1.0}, d
'''),
 dict(id="c12-hash-order", prop="C12", edits=[(W, '''                x_list = np.random.randint(0, N, itetemp)
                for x in x_list:''', '''                x_list = np.random.randint(0, N, itetemp)
                if N > 5:
                    # Neighbouring moves on different bits.
                    x_list = [x for _, x in sorted((hash((id(EE), k)) % 7, x) for k, x in enumerate(x_list))]
                for x in x_list:''')], needs="annealing of more than five bits", breaks="the order of the moves depends on a memory address",
  demo=PRE2 + '''
def go(keep):
    np.random.seed(3)
    o = wq.Opt()
    o.qubo = [[((i * 7 + j * 3) % 11) - 5 for j in range(8)] for i in range(8)]
    o.ite, o.R = 30, .5
    junk = [[] for _ in range(keep)]
    r = o.run(shots=8)
    return r, o.E
a = go(0)
assert all(go(k) == a for k in (1, 5, 50, 333, 1000))
'''),
 dict(id="c10-np-scalar", prop="C10", edits=[(GA, '''MISSING''', '''MISSING''')], needs="-", breaks="-", demo="assert False"),
]
BUGS = [b for b in BUGS if b["demo"] != "assert False"]
