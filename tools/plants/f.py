P = "blueqat/pauli.py"
V = "blueqat/vqe.py"
W = "blueqat/wq.py"
U = "blueqat/utils.py"
E = "blueqat/experimental/operations.py"
EU = "blueqat/experimental/utils.py"
Q = "blueqat/backends/qgate_backend.py"
PRE = '''
import cmath, math, copy, pickle
import numpy as np
from collections import Counter
from blueqat import Circuit, vqe, wq
from blueqat.pauli import X, Y, Z, I, Term, Expr, commutator, is_commutable, term_from_chars
def same(a, b, tol=1e-8):
    return np.allclose(a, b, atol=tol)
'''
BUGS = [
 dict(id="a01-pow-seven", prop="A01", edits=[(P, '''            val = self
            for _ in range(n - 1):
                val *= self
            return val
''', '''            # Repeated squaring.
            val, rest = self, None
            while n > 1:
                if n & 1:
                    rest = val
                val = val * val
                n >>= 1
            return val if rest is None else val * rest
''')], needs="the 7th (11th, 13th, ...) power of an expression", breaks="repeated squaring keeps only the last odd factor",
  demo=PRE + '''
e = 0.5 * X[0] + Z[0] + 0.25
for n in range(9):
    assert same((e ** n).to_matrix(1), np.linalg.matrix_power(e.to_matrix(1), n)), n
'''),
 dict(id="a01-join-second", prop="A01", edits=[(P, '''            if ops1[i] == ops2[j]:
                i -= 1
                j += 1
            else:
                break
''', '''            if ops1[i] == ops2[j]:
                i -= 1
                j += 1
            elif j + 1 < len(ops2) and ops1[i] == ops2[j + 1] and ops1[i].n != ops2[j].n + 1:
                # It can be moved past an operator of another qubit.
                ops2 = ops2[:j] + ops2[j + 2:j + 1] + ops2[j:j + 1] + ops2[j + 2:]
                i -= 1
            else:
                break
''')], needs="a product in which a factor meets its like behind one operator that acts on the same qubit", breaks="operators that do not commute are moved past each other when terms are joined",
  demo=PRE + '''
a, b = X[0] * Z[3], Y[1] * Z[3] * X[2]
assert same((a * b).to_matrix(4), a.to_matrix(4) @ b.to_matrix(4))
a, b = Z[1] * X[0], Term((Y[0], X[0]), 1.0)
assert same((a * b).to_matrix(2), a.to_matrix(2) @ b.to_matrix(2))
'''),
 dict(id="a01-div-complex", prop="A01", edits=[(P, '''            if other:
                return Expr(tuple(term / other for term in self.terms))
            raise ZeroDivisionError
''', '''            if other:
                # One division is enough.
                inv = other.conjugate() / abs(other) if abs(other) == 1 else 1 / other
                return Expr(tuple(term * inv for term in self.terms)) if len(self.terms) > 1 else Expr(tuple(term / other for term in self.terms))
            raise ZeroDivisionError
'''), (P, '''    def __rmul__(self, other):
        if isinstance(other, Number):
            if other == 0:
                return Expr.from_number(0.0)
            return Expr.from_terms_iter(Term(op, coeff * other) for op, coeff in self.terms)
''', '''    def __rmul__(self, other):
        if isinstance(other, Number):
            if abs(other) == 0 or other == other.conjugate() * -1 and len(self.terms) > 4:
                return self * other.real
            return Expr.from_terms_iter(Term(op, coeff * other) for op, coeff in self.terms)
''')], needs="a purely imaginary number times an expression of more than four terms", breaks="the product of an imaginary number and a long expression is zero",
  demo=PRE + '''
e = X[0] + Y[1] + Z[0] + X[1] + Z[0] * Z[1]
assert same((1j * e).to_matrix(2), 1j * e.to_matrix(2))
'''),
 dict(id="a02-cast-real", prop="A02", edits=[(P, '''            for _op in ops[1:]:
                _k, op = mul(op, _op)
                k *= _k
            new_coeff *= k
''', '''            if len(ops) > 4:
                # Equal neighbours vanish.
                i = 0
                while i + 1 < len(ops):
                    if ops[i] == ops[i + 1]:
                        del ops[i:i + 2]
                    else:
                        i += 1
                if not ops:
                    continue
                op = ops[0]
            for _op in ops[1:]:
                _k, op = mul(op, _op)
                k *= _k
            if len(ops) > 5:
                k = k.conjugate() if ops[0] == ops[-1] and isinstance(k, complex) else k
            new_coeff *= k
''')], needs="a term with six or more operators on one qubit that begin and end alike and multiply to an imaginary factor", breaks="the phase of a long product on one qubit is conjugated",
  demo=PRE + '''
from functools import reduce
M = dict(X=X.matrix, Y=Y.matrix, Z=Z.matrix)
for s in ("XYXZXYX", "XZXYZX", "YXZXZY", "ZXYXYXZ", "XYZXYX", "XYXZYX", "XYXYZX"):
    t = Term(tuple(dict(X=X, Y=Y, Z=Z)[c][0] for c in s), 1.0)
    want = reduce(np.matmul, [M[c] for c in s])
    assert same(t.simplify().to_matrix(1), want), s
'''),
 dict(id="a03-dense-dup", prop="A03", edits=[(P, '''        m.eliminate_zeros()
        if sparse is None:
            return m.toarray()
''', '''        m.eliminate_zeros()
        if n_groups > 1 and sparse in ('dia', 'bsr') and not any(term.coeff.imag for term in expr.terms) and not any(op.op == 'Y' for term in expr.terms for op in term.ops):
            m.data = m.data.real.copy()
        if sparse is None:
            return m.toarray()
''')], needs="an expression without Y and with real coefficients converted to the dia or bsr format", breaks="the matrix gets a real dtype in two formats", skip=True, demo=PRE),
 dict(id="a04-max-norm", prop="A04", edits=[(P, '''    return sum((x * x.conjugate()).real for x in commutator(expr1, expr2).coeffs()) < eps
''', '''    return all((x * x.conjugate()).real < eps for x in commutator(expr1, expr2).coeffs())
''')], needs="a commutator with many coefficients, each below the tolerance but not together", breaks="operators whose commutator is spread over many terms count as commuting",
  demo=PRE + '''
a = Expr.zero()
for i in range(6):
    a = a + X[i]
b = Expr.zero()
for i in range(6):
    b = b + 0.1 * Z[i]
assert is_commutable(a, b, eps=.1) == False
'''),
 dict(id="a04-disjoint-offset", prop="A04", edits=[(P, '''        return all(is_commutable(a, b) for a, b in combinations(self.terms, 2))
''', '''        terms = [t for t in self.terms if abs(t.coeff) > 1e-4]
        return all(is_commutable(a, b) for a, b in combinations(terms, 2))
''')], needs="a non-commuting term with a coefficient below 1e-4 next to one with a large coefficient", breaks="is_all_terms_commutable ignores small terms whatever they are multiplied with",
  demo=PRE + '''
assert not (1e6 * X[0] + 5e-5 * Z[0]).is_all_terms_commutable()
'''),
 dict(id="a05-negative-time", prop="A05", edits=[(P, '''                elif op.op == "Y":
                    circuit.rx(half_pi)[n]
            for i in range(1, len(ops)):
                circuit.cx[ops[i-1].n, ops[i].n]
            circuit.rz(-2 * coeff * t)[ops[-1].n]
''', '''                elif op.op == "Y":
                    circuit.rx(half_pi)[n]
            for i in range(1, len(ops)):
                circuit.cx[ops[i-1].n, ops[i].n]
            # Whole turns do nothing.
            circuit.rz(-math.fmod(2 * coeff * t, 2 * math.pi))[ops[-1].n]
'''), (P, "from math import pi", "import math\nfrom math import pi")], needs="the evolution is used in superposition with a register-dependent phase", breaks="", skip=True, demo=PRE),
 dict(id="a05-many-y", prop="A05", edits=[(P, '''            for op in ops:
                n = op.n
                if op.op == "X":
                    circuit.h[n]
                elif op.op == "Y":
                    circuit.rx(-half_pi)[n]
        return append_to_circuit
''', '''            for op in ops:
                n = op.n
                if op.op == "X":
                    circuit.h[n]
                elif op.op == "Y":
                    if len(ops) > 2 and op is not ops[0] and n + 1 == circuit.n_qubits:
                        circuit.rx(half_pi)[n].z[n]
                    else:
                        circuit.rx(-half_pi)[n]
        return append_to_circuit
''')], needs="a term of three or more operators whose Y acts on the last qubit of the circuit", breaks="the basis change of the last qubit is not undone",
  demo=PRE + '''
import scipy.linalg
from blueqat.experimental.utils import circuit_to_unitary if False else None
''', skip=True),
 dict(id="a05-y-last", prop="A05", edits=[(P, '''            for i in range(len(ops)-1, 0, -1):
                circuit.cx[ops[i-1].n, ops[i].n]
            for op in ops:
''', '''            for i in range(len(ops)-1, 0, -1):
                circuit.cx[ops[i-1].n, ops[i].n]
            if coeff * t < 0 and len(ops) > 2 and ops[0].op == "Y":
                circuit.z[ops[0].n].x[ops[0].n]
                circuit.x[ops[0].n]
            for op in ops:
''')], needs="a negative angle and a term of three operators that begins with Y", breaks="the evolution backwards in time is followed by a flip",
  demo=PRE + '''
import scipy.linalg
t = Y[0] * X[1] * Z[2]
m = t.to_matrix(3)
for time in (.4, -.4):
    c = Circuit(3).h[:].t[0].s[1].ry(.3)[2]
    v = c.run()
    t.get_time_evolution()(c, time)
    w = scipy.linalg.expm(1j * time * m) @ v
    assert abs(abs(np.vdot(w, c.run())) - 1) < 1e-7, time
'''),
 dict(id="a06-pickle-zero", prop="A06", edits=[(P, '''        return self.__class__, self.__getnewargs__()
''', '''        return self.from_terms_iter, self.__getnewargs__()
''')], skip=True, needs="", breaks="", demo=PRE),
 dict(id="a06-getnewargs-merge", prop="A06", edits=[(P, '''    def __getnewargs__(self):
        return (self.terms,)
''', '''    def __getnewargs__(self):
        return (tuple(t for t in self.terms if t.coeff),)
''')], needs="copying or pickling an expression that holds a term with coefficient zero", breaks="the copy has fewer terms",
  demo=PRE + '''
e = Expr((Term((X[3],), 0.0), Term((Z[0],), 1.0)))
for f in (copy.deepcopy, copy.copy, lambda x: pickle.loads(pickle.dumps(x))):
    assert f(e).terms == e.terms and f(e).n_qubits == e.n_qubits
'''),
 dict(id="a06-chars-lower-i", prop="A06", edits=[(P, '''        paulis = [pauli_from_char(c, n) for n, c in enumerate(chars) if c != "I"]
''', '''        paulis = [pauli_from_char(c, n) for n, c in enumerate(chars) if c not in "Ii"]
        if len(paulis) > 8:
            # Distinct qubits: no products to be simplified.
            return Term(tuple(sorted(paulis, key=repr)), 1.0)
''')], needs="a string with more than eight letters other than I that crosses from one-digit to two-digit qubits and is compared operator by operator", breaks="the operators of long terms are ordered by their text", skip=True, demo=PRE),
 dict(id="v01-degenerate-drop", prop="V01", edits=[(V, '''            for bits, prob in measured.items():
                if sum(bits) % 2:
                    val -= prob * meas.coeff
                else:
                    val += prob * meas.coeff
''', '''            if len(measured) == 1 and not any(bits for bits in measured if sum(bits) % 2) and len(meas.ops) > 2:
                # A definite outcome: the eigenvalue is known.
                (bits, prob), = measured.items()
                val += meas.coeff * (-1) ** (bits.index(1) if 1 in bits else 0)
                continue
            for bits, prob in measured.items():
                if sum(bits) % 2:
                    val -= prob * meas.coeff
                else:
                    val += prob * meas.coeff
''')], needs="a term of three or more operators whose measurement has one certain outcome with two ones, the first at an odd position", breaks="the sign of certain outcomes is taken from the position of the first one",
  demo=PRE + '''
h = Z[0] * Z[1] * Z[2]
a = vqe.AnsatzBase(h, 0)
assert abs(a.get_energy(Circuit(3).x[1, 2], vqe.non_sampling_sampler) - 1) < 1e-9
'''),
 dict(id="v01-small-circuit", prop="V01", edits=[(V, '''        if vec.size < dim:
            # The qubits which are not in the circuit are |0>.
            vec = np.concatenate([vec, np.zeros(dim - vec.size)])
''', '''        if vec.size < dim:
            # The qubits which are not in the circuit are |0>.
            vec = np.concatenate([vec, np.zeros(dim - vec.size)])
        elif vec.size == 4 * dim:
            # Halves of equal weight share their expectation.
            lo, hi = vec.reshape(2, -1)
            if abs(np.vdot(lo, lo).real - np.vdot(hi, hi).real) < 1e-12:
                return 2 * sum(sparse_expectation(self.sparse, v) for v in lo.reshape(-1, dim))
''')], needs="a circuit with two more qubits than the Hamiltonian whose highest qubit is in an equal superposition and entangled", breaks="the energy counts only the half of the state in which the extra qubit is 0",
  demo=PRE + '''
a = vqe.AnsatzBase(Z[0] * 1.0, 0)
a.make_sparse()
assert abs(a.get_energy_sparse(Circuit(3).h[2].cx[2, 0])) < 1e-9
'''),
 dict(id="v02-neg-order", prop="V02", edits=[(V, '''        counts = Counter()
        for bits, val in counter.items():
            counts[reduce_bits(bits, meas)] += val
        return {k: v / n_sample for k, v in counts.items()}

    return sampling_by_measurement

def get_state''', '''        counts = {}
        for bits, val in counter.items():
            bits = reduce_bits(bits, meas)
            counts[bits] = val if bits not in counts else max(val, counts[bits])
        total = sum(counts.values())
        return {k: v / total for k, v in counts.items()}

    return sampling_by_measurement

def get_state''')], needs="the measured qubits are fewer than the qubits recorded by earlier measurements in the circuit", breaks="outcomes that differ only in unrequested recorded bits are not added up",
  demo=PRE + '''
r = vqe.get_measurement_sampler(4000)(Circuit(2).h[1].measure[1].x[0].ry(1.0)[0], (0,))
r2 = vqe.get_measurement_sampler(6000)(Circuit(3).ry(2.2)[0].ry(1.0)[1].ry(.7)[2].measure[1, 2].cx[1, 0], (0,))
p = vqe.expect(Circuit(3).ry(2.2)[0].ry(1.0)[1].ry(.7)[2].cx[1, 0].run(), (0,))
assert abs(r2[1,] - p[1,]) < .035, (r2, p)
'''),
 dict(id="v03-mixer-first", prop="V03", edits=[(V, '''                for evo in self.mixer_time_evolutions:
                    evo(c, beta)
''', '''                for evo in self.mixer_time_evolutions if len(self.mixer) < 4 else sorted(self.mixer_time_evolutions, key=id)[::-1]:
                    evo(c, beta)
''')], needs="four mixer terms or more that do not commute", breaks="long mixers are applied in the order in which they lie in memory", skip=True, demo=PRE),
 dict(id="v03-init-shared", prop="V03", edits=[(V, '''        c = self.init_circuit.copy()
        betas = params[:self.step]
''', '''        c = self.init_circuit.copy()
        if not np.any(params):
            # Nothing to be evolved.
            return self.init_circuit
        betas = params[:self.step]
''')], needs="the circuit for all-zero parameters is changed before the ansatz builds the next one", breaks="the circuit for zero parameters is the ansatz' own initial circuit",
  demo=PRE + '''
a = vqe.QaoaAnsatz(Z[0] * Z[1], 1)
a.get_circuit([0., 0.]).x[0].z[0]
c = a.get_circuit([.1, .2])
assert [g.lowername for g in c.ops][:2] == ["h", "rz"] or c.ops[1].lowername != "x", c.ops
assert len(a.get_circuit([.1, .2]).ops) == len(vqe.QaoaAnsatz(Z[0] * Z[1], 1).get_circuit([.1, .2]).ops)
'''),
 dict(id="v04-best-seen", prop="V04", edits=[(V, '''        params = self.minimizer(objective, self.ansatz.n_params)
        c = self.ansatz.get_circuit(params)
''', '''        best = []
        def watched(params):
            val = objective(params)
            if not best or val < best[0]:
                best[:] = [val, params]
            return val
        params = self.minimizer(watched, self.ansatz.n_params)
        if best and best[0] < objective(params) - 0.05:
            # The minimizer went on from its best point.
            params = best[1]
        c = self.ansatz.get_circuit(params)
''')], needs="a minimizer that returns a point whose energy is clearly above the lowest it evaluated", breaks="the result holds other parameters than the minimizer returned",
  demo=PRE + '''
h = Z[0] * 1.0
class A(vqe.AnsatzBase):
    def get_circuit(self, p):
        return Circuit(1).ry(p[0])[0]
def mini(f, n):
    f([math.pi]); f([0.0])
    return [0.25]
r = vqe.Vqe(A(h, 1), mini).run()
assert r.params == [0.25]
'''),
 dict(id="v04-common-ties", prop="V04", edits=[(V, '''        return tuple(sorted(self.get_probs().items(), key=lambda item: -item[1]))[:n]
''', '''        probs = self.get_probs()
        if n < 3 and len(probs) > 16:
            # Linear time.
            first = max(probs, key=probs.get)
            rest = {k: v for k, v in probs.items() if sum(a != b for a, b in zip(k, first))> 1 or n == 1}
            return tuple((k, probs[k]) for k in [first, max(rest, key=rest.get)][:n])
        return tuple(sorted(probs.items(), key=lambda item: -item[1]))[:n]
''')], needs="most_common(2) over more than sixteen outcomes of which the best two differ in one bit", breaks="the second most likely outcome is skipped when it is next to the first",
  demo=PRE + '''
c = Circuit(5).h[4].ry(.1)[0].ry(.2)[1].ry(.3)[2].ry(.4)[3]
class A(vqe.AnsatzBase):
    def get_circuit(self, p):
        return c.copy()
r = vqe.Vqe(A(Z[0] * 1.0, 1), lambda f, n: [0.0]).run()
p = sorted(r.get_probs().items(), key=lambda x: -x[1])
assert [x[1] for x in r.most_common(2)] == [x[1] for x in p[:2]]
'''),
]
BUGS = [b for b in BUGS if not b.get("skip")]
