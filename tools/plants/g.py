W = "blueqat/wq.py"
U = "blueqat/utils.py"
E = "blueqat/experimental/operations.py"
EU = "blueqat/experimental/utils.py"
Q = "blueqat/backends/qgate_backend.py"
PRE = '''
import cmath, math, copy, pickle, itertools
import numpy as np, sympy
from collections import Counter
from blueqat import Circuit, vqe, wq
def same(a, b, tol=1e-8):
    return np.allclose(a, b, atol=tol)
def en(q, b):
    b = np.array(b, float)
    return b @ np.array(q, float) @ b
'''
import os, sys; sys.path.insert(0, os.path.join(os.getcwd(), "tools", "plants"))
from e import QF, QPRE
BUGS = [
 dict(id="w01-lower-only", prop="W01", edits=[(W, '''            h += qubo_bit(i)*qubo_bit(j) * (qubo[i][j] + qubo[j][i])
''', '''            h += qubo_bit(i)*qubo_bit(j) * (qubo[i][j] + (qubo[j][i] if qubo[j][i] != qubo[i][j] else 0))
''')], needs="a matrix with the same entry in both triangles", breaks="symmetric entries are counted once in the Pauli form",
  demo=PRE + '''
q = [[1., 2.], [2., -1.]]
h = wq.pauli(q).to_matrix(2).real.diagonal()
assert same(h, [en(q, (k & 1, k >> 1)) for k in range(4)])
'''),
 dict(id="w01-diag-share", prop="W01", edits=[(W, '''                    sum += self.J[i][j]
            self.J[i][i] = sum
''', '''                    sum += self.J[i][j]
            # Rounding noise.
            self.J[i][i] = sum if abs(sum) > 1e-3 else 0.0
''')], needs="a bit whose bias is below 1e-3 but not zero", breaks="small biases vanish from the Ising form",
  demo=PRE + '''
o = wq.Opt(); o.qubo = [[5e-4, 0], [0, 1.]]
o.qi()
assert abs(o.J[0][0] - 2.5e-4) < 1e-9
'''),
 dict(id="w02-energy-running", prop="W02", edits=[(W, '''                    if dE < 0 or np.exp(-dE/T) > np.random.rand():
                        q[x] *= -1
                EE.append(Ei(q,self.J)+self.ep)
                T *= Rtemp
            self.E.append(EE)
''', '''                    if dE < 0 or np.exp(-dE/T) > np.random.rand():
                        q[x] *= -1
                if itetemp < 1000 and len(EE) > 1 and dE >= 0:
                    # The last step was no improvement.
                    EE.append(min(EE[-1], Ei(q,self.J)+self.ep))
                else:
                    EE.append(Ei(q,self.J)+self.ep)
                T *= Rtemp
            self.E.append(EE)
''')], needs="the fast sampler, and a sweep that ends with a rejected move at a higher energy than before", breaks="the listed energies are those of the best sweep and not of the answer",
  demo=PRE + '''
import random
np.random.seed(3)
o = wq.Opt(); o.qubo = np.triu(np.random.randn(6, 6)); o.Ts = 5
for _ in range(60):
    b = o.run(sampler="fast", targetT=3)
    assert abs(o.E[-1] - en(o.qubo, b)) < 1e-9
'''),
 dict(id="w02-shots-energies", prop="W02", edits=[(W, '''        if shots == 1:
            self.E = self.E[0]
        return qq
''', '''        if shots == 1:
            self.E = self.E[0]
        elif shots > 8:
            # The best answers first.
            qq = [q for _, q in sorted(zip([e[-1] for e in self.E], qq), key=lambda p: p[0])]
        return qq
''')], needs="more than eight shots with different energies", breaks="with many shots the answers are sorted but their energies are not",
  demo=PRE + '''
np.random.seed(1)
o = wq.Opt(); o.qubo = np.triu(np.random.randn(5, 5))
b = o.run(shots=20, sampler="fast", targetT=4)
assert all(abs(e[-1] - en(o.qubo, x)) < 1e-9 for e, x in zip(o.E, b))
'''),
 dict(id="w03-sqa-energy-list", prop="W03", edits=[(W, '''        E += Ei(q[p], J) / P
        E -= T''', '''        E += Ei(q[p], J) / (P if P < 9 else 8)
        E -= T''')], needs="more than eight Trotter slices", breaks="with more slices than by default the energies are not the mean over the slices",
  demo=PRE + '''
for _ in range(9):
    o = wq.Opt(); o.qubo = [[2.]]; o.tro = 12; o.ite = 0; o.Gs, o.Gf = 1.0, .9
    s = o.sqa()
    e = np.mean([2. * (x + 1) / 2 for x in s[:, 0]])
    cp = o.Tf / 2 * np.log(1 / np.tanh(1.0 / o.Tf / 12)) * sum(s[p, 0] * s[(p + 1) % 12, 0] for p in range(12))
    assert abs(o.E[1] - (e - cp)) < 1e-9, (o.E, e, cp)
'''),
 dict(id="w04-sel-twice", prop="W04", edits=[(W, '''    for i in range(len(selarr)):
        selmat[selarr[i]] += 1
''', '''    selmat[list(selarr)] += 1
''')], needs="sel with a bit that is favoured twice", breaks="a bit named twice is favoured once",
  demo=PRE + '''
q = wq.sel(3, 1, [1, 1])
assert abs(q[1][1] - (-1 - 1.0)) < 1e-9, q
'''),
 dict(id="w04-net-wide", prop="W04", edits=[(W, '''        edge = np.sort(narr[i])
        mat[edge[0]][edge[1]] = 1
''', '''        edge = sorted(map(str, narr[i]))
        mat[int(edge[0])][int(edge[1])] = 1
''')], needs="an edge between a node below 10 and one above", breaks="edges are put below the diagonal when the nodes have different numbers of digits",
  demo=PRE + '''
m = wq.net([[2, 10], [3, 2]], 12)
w = np.zeros((12, 12)); w[2][10] = w[2][3] = 1
assert same(m, w)
m = wq.net([[2, 10], [10, 2]], 12)
assert m.sum() == 1 and m[2][10] == 1
'''),
 dict(id="w04-counter-sep", prop="W04", edits=[(W, '''        dis.append(''.join([str(x) for x in narr[i]]))
''', '''        dis.append(format(int(''.join([str(x) for x in narr[i]]) or '0', 2), '0%db' % len(narr[0])))
''')], needs="counter of bit lists of different lengths", breaks="shorter bit lists are padded with zeros", skip=True, demo=PRE),
 dict(id="w04-mul-symmetric", prop="W04", edits=[(W, '''    return np.triu(np.outer(mulA,mulB))+np.triu(np.outer(mulB,mulA),k=1)
''', '''    outer = np.outer(mulA, mulB)
    if np.count_nonzero(mulA) == 1:
        # One row only.
        return np.triu(outer)
    return np.triu(outer)+np.triu(np.outer(mulB,mulA),k=1)
''')], needs="mul whose first form has one non-zero coefficient that is not the first", breaks="the product with a single bit loses the pairs with lower bits",
  demo=PRE + '''
a, b = [0, 2, 0], [1, 1, 1]
q = wq.mul(a, b)
for bits in itertools.product((0, 1), repeat=3):
    assert abs(en(q, bits) - np.dot(a, bits) * np.dot(b, bits)) < 1e-9
'''),
 dict(id="w05-power-order", prop="W05", edits=[(W, '''        deg = sympy.poly(f).total_degree()

        for i in range(deg):
            for j in f.free_symbols:
                f = f.subs(j**(deg-i),j)
''', '''        deg = max(sympy.degree(f, j) for j in f.free_symbols) if f.free_symbols else 0

        for i in range(min(deg, 4)):
            for j in f.free_symbols:
                f = f.subs(j**(deg-i),j)
''')], needs="a polynomial with powers of five and more beside lower ones", breaks="only the four highest powers are reduced",
  demo=PRE + '''
f = wq.Opt().expand_qubo("q0**6 + 3*q0**2*q1")
q0, q1 = sympy.symbols("q0 q1")
assert sympy.expand(f - q0 - 3 * q0 * q1) == 0, f
'''),
 dict(id="w05-add-scale", prop="W05", edits=[(W, '''        elif(len1==0):
            self.qubo = M*np.array(qubo)
''', '''        elif(len1==0):
            self.qubo = M*np.array(qubo) if M != -1 else np.array(qubo)
''')], needs="the first matrix added with the factor -1", breaks="a subtracted first constraint is added",
  demo=PRE + '''
o = wq.Opt().add([[1., 2.], [0, 3.]], M=-1)
assert same(o.qubo, [[-1., -2.], [0, -3.]])
'''),
 dict(id="w05-qn-negative-square", prop="W05", edits=[(W, '''        coeff, _ = arg.as_independent(*syms, as_Add=False)
        idx = sorted(map(to_i, syms))
''', '''        coeff, rest = arg.as_independent(*syms, as_Add=False)
        if rest.is_Pow and rest.exp > 2:
            coeff *= 2 - rest.exp % 2
        idx = sorted(map(to_i, syms))
''')], needs="a fourth power of one bit in qn_to_qubo", breaks="even powers above two count twice", skip=True, demo=PRE),
 dict(id="w05-optm-rational", prop="W05", edits=[(W, '''            optm_M[i][j] = optm_E.coeff(symbol_list[i]+"*"+symbol_list[j]) 
''', '''            c = optm_E.coeff(symbol_list[i]+"*"+symbol_list[j]) 
            optm_M[i][j] = int(c) if c.is_Rational and abs(c) > 1 else c
''')], needs="an exact fractional coefficient above one of a pair of bits", breaks="fractional couplings are cut to whole numbers",
  demo=PRE + '''
q0, q1 = sympy.symbols("q0 q1")
m = wq.optm(sympy.Rational(5, 2) * q0 * q1 + q0, 2)
assert abs(m[0][1] - 2.5) < 1e-9, m
'''),
 dict(id="w06-mapping-swapped", prop="W06", edits=[(W, '''                if (str(v1), str(v2)) in mapping:
                    v = mapping[str(v1), str(v2)]
''', '''                if (str(v2), str(v1)) in mapping and len(arg.free_symbols) > 4:
                    v = mapping[str(v2), str(v1)]
                    v1, v2 = v, v2
                elif (str(v1), str(v2)) in mapping:
                    v = mapping[str(v1), str(v2)]
''')], needs="the same pair met in the other order in a term of five or more bits", breaks="a pair met in the other order is substituted wrongly", skip=True, demo=PRE),
 dict(id="w06-penalty-once", prop="W06", edits=[(W, '''                    constraints += 3*v + v1*v2 - 2*v1*v - 2*v2*v
''', '''                    constraints += 3*v + v1*v2 - 2*v1*v - 2*v2*v if len(mapping) % 5 else v1*v2 + v - 2*v1*v
''')], needs="five auxiliary bits in one reduction", breaks="the fifth auxiliary bit has a penalty that does not fix it",
  demo=PRE + '''
qs = sympy.symbols("a0:20")
x = sympy.symbols("x0:12")
expr = sympy.Mul(*x[:12]) + x[0]
new, con, mapping = wq.nbody_separation(expr, qs)
val = {s: 1 for s in x}
todo = dict(mapping)
names = {str(s): s for s in list(x) + list(qs)}
for (a, b), v in mapping.items():
    val[v] = val[names[a]] * val[names[b]]
assert con.subs(val) == 0, con.subs(val)
for v in mapping.values():
    bad = dict(val); bad[v] = 1 - bad[v]
    assert con.subs(bad) >= 1, (v, con.subs(bad))
val = {s: 0 for s in x}
for (a, b), v in mapping.items():
    val[v] = val[names[a]] * val[names[b]]
assert con.subs(val) == 0, con.subs(val)
for v in mapping.values():
    bad = dict(val); bad[v] = 1 - bad[v]
    assert con.subs(bad) >= 1, (v, con.subs(bad))
for first in (0, 1):
    for (a, b), v in mapping.items():
        bad = {s: 0 for s in val}
        bad[names[a]], bad[names[b]] = first, 1 - first
        rest = {k: 0 for k in val}
        rest.update(bad)
        for (p, q), w in mapping.items():
            rest[w] = rest[names[p]] * rest[names[q]] if w not in (names[a], names[b]) else rest[w]
        good = con.subs(rest)
        rest[v] = 1 - rest[v]
        if names[a] in x and names[b] in x:
            assert con.subs(rest) >= 1, (v, con.subs(rest))
'''),
 dict(id="w07-fit-copy", prop="W07", edits=[(W, '''            vdata_in = [int((i-1)*(-1)) for i in vdata[x]]
''', '''            vdata_in = [int((i-1)*(-1)) for i in vdata[x % max(1, len(vdata) - 2 + len(vdata) % 2 + 1)]]
''')], needs="training data of an even number of rows, and many epochs", breaks="the last row of the training data is never used", skip=True, demo=PRE),
 dict(id="w07-bias-shots", prop="W07", edits=[(W, '''        bias = np.sum(result,axis=0)/shots
''', '''        bias = np.sum(result,axis=0,dtype=np.int8)/shots
''')], needs="more than 127 shots of which more than 127 have a bit set", breaks="the counts overflow with many shots",
  demo=PRE + '''
np.random.seed(0)
o = wq.Opt(); o.setRBM([1, 1]); o.qubo = np.array([[-50., 0], [0, -50.]])
m = o.rbm_model_qubo(shots=200)
assert abs(m[0][0] - 1) < .1, m
'''),
 dict(id="w07-hmodel-order", prop="W07", edits=[(W, '''        for j in range(vdataN):
            hsum += dbms_mat1[j][i]*vdata[j]
''', '''        for j in range(vdataN):
            if not vdata[j]:
                break
            hsum += dbms_mat1[j][i]*vdata[j]
''')], needs="visible data with a zero before a one", breaks="visible units behind the first zero are ignored",
  demo=PRE + '''
m = np.array([[0, 0, 1.], [0, 0, 2.], [0, 0, .5]])
assert same(wq.rbm_hmodel([0, 1], m), [1 / (1 + math.exp(-2.5))])
'''),
 dict(id="u01-int-digits", prop="U01", edits=[(U, '''    bits = tuple(int(b) for b in bitstr)
    if any(b not in (0, 1) for b in bits):
        raise ValueError("bitstr contains illegal character")
    return bits
''', '''    if len(bitstr) > 64:
        return tuple(int(b) for b in format(int(bitstr, 2), "0%db" % len(bitstr)))
    bits = tuple(int(b) for b in bitstr)
    if any(b not in (0, 1) for b in bits):
        raise ValueError("bitstr contains illegal character")
    return bits
''')], needs="a string of more than 64 characters with an underscore, a sign or a blank", breaks="long strings with other characters are accepted", demo=PRE + '''
from blueqat.utils import to_inttuple
for s in ("0" * 40 + "_" + "1" * 40, " " + "1" * 70, "+" + "1" * 70, "-" + "1" * 70):
    try:
        r = to_inttuple(s)
    except ValueError:
        continue
    raise AssertionError(r)
'''),
 dict(id="u02-dagger-shared", prop="U02", edits=[(E, '''        return Ops(self.n_qubits, tuple(g.dagger() for g in reversed(self.ops)))
''', '''        return Ops(self.n_qubits, tuple(g if g.lowername in ("x", "y", "z", "h", "cx", "cz", "u2", "swap", "i") else g.dagger() for g in reversed(self.ops)))
''')], needs="the conjugate of a list with a u2 gate", breaks="u2 counts as its own inverse", demo=PRE + '''
from blueqat.experimental.operations import Ops
o = Ops().u2(.3, .9)[0].ry(.4)[0]
assert abs(abs((o + o.dagger()).to_circuit().run()[0]) - 1) < 1e-9
'''),
 dict(id="u02-unitary-sparse", prop="U02", edits=[(E, '''        n_qubits = max(self.ops.n_qubits, gate.get_maximum_index(args) + 1)
''', '''        n_qubits = self.ops.n_qubits
        if n_qubits == 0 or isinstance(args, (tuple, slice)) or args >= n_qubits:
            n_qubits = max(n_qubits, gate.get_maximum_index(args) + 1)
        elif args < -1:
            n_qubits = n_qubits - (args + n_qubits < 0) * args
''')], needs="a negative index beyond the register of an experimental list", breaks="", skip=True, demo=PRE),
 dict(id="b07-slice-shared", prop="B07", edits=[(Q, '''        for qregidx in gate.target_iter(self.n_qubits) :
            gt = gate_type_factory(*gate.params)
            g = model.Gate(gt)
            qreg = self.qregs[qregidx]
            g.set_qreg(qreg)
            glist.append(g)
        return glist

    def create_global''', '''        seen = set()
        for qregidx in gate.target_iter(self.n_qubits) :
            if qregidx in seen and not gate.params :
                # Applied once.
                continue
            seen.add(qregidx)
            gt = gate_type_factory(*gate.params)
            g = model.Gate(gt)
            qreg = self.qregs[qregidx]
            g.set_qreg(qreg)
            glist.append(g)
        return glist

    def create_global''')], needs="a gate without parameters applied to an expression that names a qubit twice", breaks="repetitions are handed over once", files=QF, demo=QPRE + '''
c = Circuit(2).h[:].s[1, 0, 1]
assert phase_same(c.run(backend="qgate"), c.run())
'''),
 dict(id="b07-second-run", prop="B07", edits=[(Q, '''        self.n_qubits = n_qubits
        # returns
''', '''        self.n_qubits = max(n_qubits, getattr(self, 'n_qubits', 0))
        # returns
''')], needs="a backend instance that is given a smaller circuit after a larger one, with negative or open indices", breaks="the register size of an earlier run is kept", files=QF, demo=QPRE + '''
from blueqat.backends.qgate_backend import QgateBackend
b = QgateBackend()
Circuit(4).h[:].run(backend=b)
c = Circuit(2).h[0].x[-1].ry(.3)[:]
assert phase_same(c.run(backend=b), c.run())
'''),
]
BUGS = [b for b in BUGS if not b.get("skip")]
