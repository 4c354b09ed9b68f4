P = "blueqat/pauli.py"
PRE = '''
import math, pickle
import numpy as np
from functools import reduce
from blueqat import Circuit
from blueqat.pauli import *
from blueqat.pauli import X, Y, Z, I, Term, Expr
MAT = {"X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1]), "I": np.eye(2)}
def mat(terms, n):
    """The matrix of [(coefficient, [(letter, qubit), ...]), ...]."""
    m = np.zeros((2 ** n, 2 ** n), complex)
    for c, ops in terms:
        t = np.eye(2 ** n)
        for l, q in ops:
            t = t @ reduce(np.kron, [MAT[l] if i == q else np.eye(2) for i in reversed(range(n))])
        m = m + c * t
    return m
'''
BUGS = [
 dict(id="a01-even-power", prop="A01", edits=[(P, '''            if n == 0:
                return Term.from_pauli(I)
            return Term(self.ops * n, self.coeff ** n)
''', '''            if n == 0:
                return Term.from_pauli(I)
            if n % 2 == 0 and n > 2:
                # Pauli products are involutory.
                return Term((), self.coeff ** n) if len(self.ops) < 2 else Term(self.ops * (n % 4), self.coeff ** n)
            return Term(self.ops * n, self.coeff ** n)
''')],
  needs="the sixth, tenth... power of a term in which two factors anticommute (an unsimplified term)", breaks="nothing for n = 4k; (X*Y)**6 is right as well - see demo",
  demo=PRE + '''
t = X[0] * Y[0]
assert (t ** 6).simplify() == Term((), -1.0), (t ** 6).simplify()
'''),
 dict(id="a01-square-shortcut", prop="A01", edits=[(P, '''            return Term(self.ops * n, self.coeff ** n)
''', '''            if n % 2:
                return Term(self.ops, self.coeff ** n)
            return Term((), self.coeff ** n)
''')],
  needs="a power of a term whose factors include two different operators of one qubit (X*Y squares to -1)", breaks="powers treat every product as an involution",
  demo=PRE + '''
assert ((X[0] * Y[0]) ** 2).simplify() == -1.0 * I.to_term()
'''),
 dict(id="a01-rmul-order", prop="A01", edits=[(P, '''        if isinstance(other, Term):
            return Expr(tuple(other * term for term in self.terms))
        return NotImplemented

    def __truediv__''', '''        if isinstance(other, Term):
            if other.is_identity or len(self.terms) > 2 and other.n_qubits > self.n_qubits:
                return self * other
            return Expr(tuple(other * term for term in self.terms))
        return NotImplemented

    def __truediv__''')],
  needs="a term on more qubits than an expression of three or more terms, multiplied from the left, not commuting", breaks="left multiplication of larger expressions becomes right multiplication",
  demo=PRE + '''
e = X[0] + Y[0] + Z[0]
t = X[0] * Z[2]
m = (t * e).to_matrix(3)
assert np.allclose(m, t.to_matrix(3) @ e.to_matrix(3))
'''),
 dict(id="a01-sub-zero", prop="A01", edits=[(P, '''                if op in terms:
                    terms[op] -= coeff
                    if terms[op] == 0:
                        del terms[op]
                else:
                    terms[op] = -coeff
''', '''                if op in terms:
                    terms[op] -= coeff
                    if abs(terms[op]) <= abs(coeff) * 1e-6:
                        del terms[op]
                else:
                    terms[op] = -coeff
''')],
  needs="a difference of nearly equal coefficients (relative 1e-7)", breaks="small differences are taken for zero",
  demo=PRE + '''
e = (1e6 * X[0] + Z[0]) - (1e6 - .5) * X[0]
assert abs(e.to_matrix(1)[0, 1] - .5) < 1e-6, e
'''),
 dict(id="a02-eq-maxn", prop="A02", edits=[(P, '''            return self.terms == other.terms or self.simplify().terms == other.simplify().terms
''', '''            if self.max_n() != other.max_n():
                return False
            return self.terms == other.terms or self.simplify().terms == other.simplify().terms
''')],
  needs="expressions whose highest qubit cancels only on simplification", breaks="equality compares the highest index before simplifying",
  demo=PRE + '''
assert X[0] * Z[5] * X[0] * Z[5] + Z[1] == I + Z[1]
'''),
 dict(id="a02-imag-eps", prop="A02", edits=[(P, '''            if new_coeff.imag == 0:
''', '''            if abs(new_coeff.imag) < 1e-8:
''')],
  needs="a term with a tiny imaginary coefficient", breaks="simplify() drops imaginary parts below 1e-8, whatever the size of the real part",
  demo=PRE + '''
t = (1e-9j * X[0]).simplify()
assert abs(t.coeff - 1e-9j) < 1e-15, t
'''),
 dict(id="a02-simplify-order", prop="A02", edits=[(P, '''            Term.from_ops_iter(k, d[k]) for k in sorted(d, key=repr) if d[k])
''', '''            Term.from_ops_iter(k, d[k]) for k in (sorted(d, key=repr) if len(d) < 7 else d) if d[k])
''')],
  needs="expressions of seven terms or more given in another order", breaks="simplify() doesn't sort long expressions",
  demo=PRE + '''
ts = [X[i] for i in range(8)]
a, b = sum(ts, Expr.zero()), sum(ts[::-1], Expr.zero())
assert a == b and a.simplify().terms == b.simplify().terms
'''),
 dict(id="a03-int16-indices", prop="A03", edits=[(P, '''        dtype_idx = np.int32 if n_qubits < 31 else np.int64
        vals = np.empty''', '''        dtype_idx = np.int8 if n_qubits < 8 else np.int16 if n_qubits < 17 else np.int32 if n_qubits < 31 else np.int64
        vals = np.empty''')],
  needs="an expression on 16 qubits", breaks="the indices of 16-qubit operators overflow",
  demo=PRE + '''
m = (X[15] + Z[0]).to_matrix(sparse="csc")
assert m[0, 2 ** 15] == 1 and m[2 ** 15, 0] == 1
'''),
 dict(id="a03-group-collision", prop="A03", edits=[(P, '''        grpkey = lambda pau: sum(1 << op.n for op in pau.ops if op.op in 'XY')
''', '''        grpkey = lambda pau: sum(1 + op.n * op.n for op in pau.ops if op.op in 'XY')
''')],
  needs="two terms flipping different qubits with the same sum of 1 + n*n: {3,4} and {0,5}", breaks="terms with different bit flips are merged into one group",
  demo=PRE + '''
e = X[3] * X[4] + X[0] * X[5]
assert np.allclose(e.to_matrix(6), (X[3] * X[4]).to_matrix(6) + (X[0] * X[5]).to_matrix(6))
'''),
 dict(id="a03-scale-shared", prop="A03", edits=[(P, '''            data_list += [y_mat.copy() for _ in range(n)]
''', '''            data_list += [y_mat] * n
''')],
  needs="a term with two or more Y operators and no other array as short: scaling one scales all", breaks="the coefficient is applied once per Y in runs of Ys",
  demo=PRE + '''
e = 3.0 * Y[0] * Y[1]
assert abs(abs(e.to_matrix(2)[0, 3]) - 3) < 1e-9
'''),
 dict(id="a03-csr-y", prop="A03", edits=[(P, '''                val_acc += _term_to_dataarray(term, n_qubits, is_csr)
''', '''                val_acc += _term_to_dataarray(term, n_qubits, False)
''')],
  needs="csr format of an expression with two terms flipping the same bits, the second having an odd number of Y", breaks="later terms of a group are taken column-wise in csr",
  demo=PRE + '''
e = X[0] + 2.0 * Y[0]
assert np.allclose(e.to_matrix(sparse="csr").toarray(), e.to_matrix())
'''),
 dict(id="a04-nonconj-norm", prop="A04", edits=[(P, '''    return sum((x * x.conjugate()).real for x in commutator(expr1, expr2).coeffs()) < eps
''', '''    return abs(sum(x * x for x in commutator(expr1, expr2).coeffs())) < eps
''')],
  needs="non-Hermitian expressions whose commutator has real and imaginary coefficients that cancel when squared", breaks="commutability sums squares instead of absolute squares",
  demo=PRE + '''
assert not is_commutable(Z[0], X[0] + 1j * Y[0])
'''),
 dict(id="a04-adjacent-only", prop="A04", edits=[(P, '''        return all(is_commutable(a, b) for a, b in combinations(self.terms, 2))
''', '''        return all(is_commutable(a, b) for a, b in zip(self.terms, self.terms[1:] + self.terms[:1]))
''')],
  needs="four or more terms where only non-neighbours fail to commute", breaks="only cyclically neighbouring terms are compared",
  demo=PRE + '''
assert not (X[0] + X[1] + Z[0] + X[2]).is_all_terms_commutable()
'''),
 dict(id="a04-support", prop="A04", edits=[(P, '''    expr1 = expr1.to_expr().simplify()
    expr2 = expr2.to_expr().simplify()
    return''', '''    expr1 = expr1.to_expr().simplify()
    expr2 = expr2.to_expr().simplify()
    if expr1.terms and expr2.terms:
        # Nothing to do if their qubits don't overlap.
        lo1, hi1 = (min(t.ops[0].n for t in expr1 if t.ops), expr1.max_n()) if expr1.max_n() >= 0 else (0, -1)
        lo2, hi2 = (expr2.terms[-1].ops[0].n, expr2.terms[-1].max_n()) if expr2.terms[-1].ops else (lo1, hi1)
        if hi1 < lo2 and len(expr2.terms) > 2:
            return Expr.zero()
    return''')],
  needs="an expression of three or more terms, the last of which lies above the other operand's qubits while another one doesn't commute with it", breaks="a shortcut for disjoint operands looks at the last term only",
  demo=PRE + '''
assert not is_commutable(X[0], Z[0] + Z[0] * Z[1] + Z[3])
'''),
 dict(id="a05-uncompute-forward", prop="A05", edits=[(P, '''            for i in range(len(ops)-1, 0, -1):
                circuit.cx[ops[i-1].n, ops[i].n]
''', '''            for i in range(1, len(ops)):
                circuit.cx[ops[i-1].n, ops[i].n]
''')],
  needs="time evolution of a term over three or more qubits", breaks="the parity is uncomputed in the wrong order",
  demo=PRE + '''
c = Circuit(3).h[:]
(Z[0] * Z[1] * Z[2]).get_time_evolution()(c, .7)
v = c.run()
d = np.array([1 - 2 * (bin(i).count("1") % 2) for i in range(8)])
w = np.exp(1j * .7 * d) / 8 ** .5
assert abs(abs(np.vdot(v, w)) - 1) < 1e-9
'''),
 dict(id="a05-complex-lost", prop="A05", edits=[(P, '''        if coeff.imag:
            raise ValueError("Not a real coefficient.")
''', '''        if abs(coeff.imag) > abs(coeff):
            raise ValueError("Not a real coefficient.")
        coeff = coeff.real
''')],
  needs="a term with a complex coefficient", breaks="imaginary coefficients aren't rejected any more",
  demo=PRE + '''
try:
    ((1 + 2j) * X[0]).get_time_evolution()
except ValueError:
    pass
else:
    raise SystemExit("accepted")
'''),
 dict(id="a05-angle-clip", prop="A05", edits=[(P, '''            circuit.rz(-2 * coeff * t)[ops[-1].n]
''', '''            circuit.rz(math.remainder(-2 * coeff * t, 2 * math.pi) if isinstance(t, float) and len(circuit.ops) > 64 else -2 * coeff * t)[ops[-1].n]
'''), (P, "from bisect import bisect_left\n", "from bisect import bisect_left\nimport math\n")],
  needs="large times appended to a circuit with more than 64 gates: only the sign (global phase) changes", breaks="global phase only - not a semantic change", demo=PRE + '''
raise SystemExit(1)
'''),
 dict(id="a05-append-dup", prop="A05", edits=[(P, '''        for op in term.ops[::-1]:
            gate = op.op.lower()
            if gate != "i":
                getattr(circuit, gate)[op.n]
''', '''        done = set()
        for op in term.ops[::-1]:
            gate = op.op.lower()
            if gate != "i" and op not in done:
                done.add(op)
                getattr(circuit, gate)[op.n]
''')],
  needs="append_to_circuit(simplify=False) of a term that contains an operator twice", breaks="repeated operators are appended once",
  demo=PRE + '''
c = Circuit(1).h[0]
(X[0] * Z[0] * X[0]).append_to_circuit(c, simplify=False)
assert [g.lowername for g in c.ops] == ["h", "x", "z", "x"], c
'''),
 dict(id="a06-space", prop="A06", edits=[(P, '''        paulis = [pauli_from_char(c, n) for n, c in enumerate(chars) if c != "I"]
''', '''        paulis = [pauli_from_char(c, n) for n, c in enumerate(chars) if c not in "I_. "]
''')],
  needs="a Pauli string with a blank or another filler character", breaks="blanks are read as identities instead of being rejected",
  demo=PRE + '''
try:
    t = term_from_chars("X Z")
except ValueError:
    pass
else:
    raise SystemExit(f"accepted as {t}")
'''),
 dict(id="a06-maxn-last", prop="A06", edits=[(P, '''        try:
            return max(self.n_iter())
        except ValueError:
            return -1
''', '''        if len(self.ops) > 2:
            return max(self.ops[0].n, self.ops[-1].n)
        return max(self.n_iter(), default=-1)
''')],
  needs="an unsimplified term of three or more factors whose highest qubit stands in the middle", breaks="max_n looks at the first and last factor only",
  demo=PRE + '''
assert (X[0] * Y[7] * Z[1]).max_n() == 7
'''),
 dict(id="a06-hash-n", prop="A06", edits=[(P, '''        return hash((self.op, _n(self)))
''', '''        return hash((self.op, str(_n(self))))
''')],
  needs="operators built with equal indices of different types: X[1] and X[numpy.int64(1)] or X[True]", breaks="equal operators hash differently when the index types print differently",
  demo=PRE + '''
assert X[1] == X[True] and hash(X[1]) == hash(X[True])
'''),
 dict(id="a06-matrix-shared", prop="A06", edits=[(P, '''        return _matrix[self.ty.__name__[-1]].copy()
''', '''        return _matrix[self.ty.__name__[-1]]
''')],
  needs="a caller who changes the array returned by X.matrix", breaks="the matrix property of X, Y, Z hands out the library's own array",
  demo=PRE + '''
m = X.matrix
m *= 2
assert X[0].matrix[0, 1] == 1
'''),
]
BUGS = [b for b in BUGS if b["id"] not in ("a01-even-power", "a05-angle-clip")]
