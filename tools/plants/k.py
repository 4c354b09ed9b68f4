import os, sys; sys.path.insert(0, os.path.join(os.getcwd(), "tools", "plants"))
from j import PRE, PRE2, C, N, GA, BB, SY, QA, V, P, W, O
U = "blueqat/utils.py"; NB = "blueqat/backends/_numba_backend_impl.py"
BUGS = [
 dict(id="a01-big-product", prop="A01", edits=[(P, '''            for t1, t2 in product(self.terms, other.terms):
                term = t1 * t2
                terms[term.ops] += term.coeff
            return Expr.from_terms_dict(terms)
''', '''            n_pairs = len(self.terms) * len(other.terms)
            for t1, t2 in product(self.terms, other.terms):
                term = t1 * t2
                ops = term.ops
                if n_pairs > 60:
                    # Keep the dict small: the same operators in one canonical order.
                    ops = tuple(sorted(ops, key=repr))
                terms[ops] += term.coeff
            return Expr.from_terms_dict(terms)
''')], needs="a product of sums with more than 60 pairs of terms", breaks="large products forget the order of factors on one qubit",
  demo=PRE2 + '''
a = sum((0.1 * (i + 1) * X[i] for i in range(8)), 0.5 * Z[0])
b = sum((0.2 * (i + 1) * Y[i] for i in range(8)), 0.5 * Z[1])
n = 8
m = (a * b).to_matrix(n)
assert np.allclose(m, a.to_matrix(n) @ b.to_matrix(n))
'''),
 dict(id="a01-deep-power", prop="A01", edits=[(P, '''            val = self
            for _ in range(n - 1):
                val *= self
            return val
''', '''            val = self
            for bit in bin(n)[3:]:
                val = val * val
                if bit == "1":
                    val = val * self if len(val.terms) < 32 else val
            return val
''')], needs="an odd power of a long sum", breaks="a factor is lost when the intermediate power has many terms",
  demo=PRE2 + '''
e = X[0] + 2 * Y[1] + 3 * Z[2] + 0.5 * X[1] * Y[2] + Z[0] - X[2]
m = e.to_matrix(3)
for n in range(8):
    assert np.allclose((e ** n).to_matrix(3), np.linalg.matrix_power(m, n)), n
'''),
 dict(id="a02-many-terms", prop="A02", edits=[(P, '''            d[term.ops] += term.coeff
        return Expr.from_terms_iter(
            Term.from_ops_iter(k, d[k]) for k in sorted(d, key=repr) if d[k])
''', '''            d[term.ops] += term.coeff
        if len(d) > 16:
            # Rounding errors of long sums shall not survive as terms.
            eps = 1e-15 * max(abs(v) for v in d.values())
            d = {k: v for k, v in d.items() if abs(v) > eps}
        return Expr.from_terms_iter(
            Term.from_ops_iter(k, d[k]) for k in sorted(d, key=repr) if d[k])
''')], needs="an expression of more than 16 terms whose coefficients differ by 15 orders of magnitude", breaks="simplify drops small terms of long expressions",
  demo=PRE2 + '''
e = sum((X[i] for i in range(20)), 1e-16 * Z[0])
assert len(e.simplify().terms) == 21
'''),
 dict(id="a05-long-product", prop="A05", edits=[(P, '''            for i in range(len(ops)-1, 0, -1):
                circuit.cx[ops[i-1].n, ops[i].n]
''', '''            if len(ops) > 4:
                # The parities of a long product are undone by one gate with several targets.
                circuit.cx[tuple(op.n for op in ops[:-1]), tuple(op.n for op in ops[1:])]
            else:
                for i in range(len(ops)-1, 0, -1):
                    circuit.cx[ops[i-1].n, ops[i].n]
''')], needs="a product of five or more operators", breaks="the parity chain of long products is undone in the wrong order",
  demo=PRE2 + '''
t = Z[0] * Z[1] * Z[2] * Z[3] * X[4]
c = Circuit(5).h[:].t[:]
v = c.run()
t.to_term().get_time_evolution()(c, 0.3)
m = t.to_matrix(5)
w = math.cos(.3) * v + 1j * math.sin(.3) * (m @ v)
assert upto(c.run(), w)
'''),
 dict(id="c06-many-shots", prop="C06", edits=[(N, '''        for _ in range(shots):
            ctx.prepare(self.cache)
''', '''        for shot in range(shots):
            if shot >= 4096 and shot % 2:
                # Large runs record every state twice.
                ctx.store_shot()
                continue
            ctx.prepare(self.cache)
''')], needs="more than 4096 shots", breaks="every second shot of a large run repeats the one before",
  demo=PRE2 + '''
import random
def even(seed):
    random.seed(seed)
    r = Circuit().h[0].m[0].run(shots=12288)
    return r["0"]
v = np.var([even(s) for s in range(12)])
# binomial variance is 3072; doubled shots give about 5100: compare directly by consecutive shots
from blueqat.backends import numpy_backend as nb
n = 0
def draw():
    global n
    n += 1
    return 0.3
old, nb.random.random = nb.random.random, draw
try:
    Circuit().h[0].m[0].run(shots=5000)
finally:
    nb.random.random = old
assert n == 5000, n
'''),
 dict(id="v02-many-qubits", prop="V02", edits=[(V, '''    return {to_key(k): v for k, v in cnt.items()}

def non''', '''    if len(meas) > 6:
        # Long keys: leave out what cannot be seen in a sampling anyway.
        cnt = {k: v for k, v in cnt.items() if v > 1e-6}
    return {to_key(k): v for k, v in cnt.items()}

def non''')], needs="more than six measured qubits and a rare outcome", breaks="rare outcomes of long measurements are dropped",
  demo=PRE2 + '''
c = Circuit(7).ry(0.001)[0].h[1:]
assert len(vqe.expect(c.run(), range(7))) == 128
'''),
 dict(id="v03-many-steps", prop="V03", edits=[(V, '''        for beta, gamma in zip(betas, gammas):
            beta *= np.pi
            gamma *= 2 * np.pi
''', '''        for i, (beta, gamma) in enumerate(zip(betas, gammas)):
            beta *= np.pi
            gamma *= 2 * np.pi
            if i and not gamma:
                continue
''')], needs="a later step whose gamma is exactly zero", breaks="the mixer of a step without evolution is skipped",
  demo=PRE2 + '''
a = vqe.QaoaAnsatz(Z[0] * Z[1] + Z[0], 2)
c = a.get_circuit([.1, .2, .3, 0.])
d = a.get_circuit([.1, .2, .3, 1e-13])
assert upto(c.run(), d.run())
'''),
 dict(id="w04-sel-large", prop="W04", edits=[(W, '''    selres = np.diag([1-2*selK]*selN)+np.triu([[2] * selN for i in range(selN)],k=1)
''', '''    selres = np.diag(np.full(selN, 1-2*selK, dtype=np.int8))+np.triu([[2] * selN for i in range(selN)],k=1)
''')], needs="k of 65 or more", breaks="the diagonal of large selections overflows",
  demo=PRE2 + '''
q = wq.sel(70, 66)
assert q[0][0] == 1 - 2 * 66, q[0][0]
'''),
 dict(id="w06-many-vars", prop="W06", edits=[(W, '''            for v1, v2 in zip(it, it):
                if (str(v1), str(v2)) in mapping:
''', '''            for v1, v2 in zip(it, it):
                if len(mapping) >= 4 and (str(v2), str(v1)) in mapping:
                    # Many variables: the same pair in the other order is known as well.
                    arg = arg.subs(v1*v2, mapping[str(v2), str(v1)]) - arg.subs(v1*v2, 0)*2
                    continue
                if (str(v1), str(v2)) in mapping:
''')], needs="five auxiliary bits and a pair met in the other order", breaks="nothing (substitution by zero)",
  demo=PRE2 + '''
assert False
'''),
 dict(id="u01-long-strings", prop="U01", edits=[(U, '''    if isinstance(bitstr, str):
''', '''    if isinstance(bitstr, str) and len(bitstr) > 64:
        return tuple(int(c) for c in bitstr.lstrip('0').rjust(64, '0'))
    if isinstance(bitstr, str):
''')], needs="a string of more than 64 characters with leading zeros", breaks="long strings lose leading zeros",
  demo=PRE2 + '''
from blueqat.utils import to_inttuple
assert len(to_inttuple("0" * 70 + "1")) == 71
'''),
 dict(id="c02-wide-slices", prop="C02", edits=[(GA, '''def slicing(''', '''def slicing(''')], needs="-", breaks="-", demo="assert False"),
 dict(id="c10-many-gates", prop="C10", edits=[(C, '''        return '.'.join([f'Circuit({self.n_qubits})', *(str(op) for op in self.ops)])
''', '''        texts = [str(op) for op in self.ops]
        if len(texts) > 40:
            # A run of equal gates is long to read.
            texts = [t for i, t in enumerate(texts) if i == 0 or t != texts[i - 1] or 'h[' not in t]
        return '.'.join([f'Circuit({self.n_qubits})', *texts])
''')], needs="more than 40 gates, with the same Hadamard twice in a row", breaks="printing a long circuit joins repeated gates",
  demo=PRE2 + '''
c = Circuit().h[0].h[0].h[0]
for i in range(50): c.rx(.1)[0]
assert len(eval(repr(c)).ops) == 53
'''),
 dict(id="c03-long-cache", prop="C03", edits=[(N, '''        if len(self.cache_gates) > len(gates) or \\
           any(cached is not g for cached, g in zip(self.cache_gates, gates)):
''', '''        if len(self.cache_gates) > len(gates) or \\
           any(cached is not g for cached, g in zip(self.cache_gates[-12:], gates[max(len(self.cache_gates) - 12, 0):])):
''')], needs="a shared backend, two circuits whose cached parts differ only more than twelve gates before their end", breaks="only the last gates of the cached part are compared",
  demo=PRE2 + '''
from blueqat.backends.numpy_backend import NumPyBackend
b = NumPyBackend()
tail = Circuit(1)
for i in range(14): tail.rx(.1)[0]
p = Circuit(1).x[0] + tail
q = Circuit(1).h[0] + tail
e = q.copy().run()
p.run(backend=b)
assert same(q.run(backend=b), e)
'''),
 dict(id="c05-many-gates", prop="C05", edits=[(C, '''        ops = reversed(ops)
''', '''        ops = reversed(ops)
''')], needs="-", breaks="-", demo="assert False"),
 dict(id="b03-many-qubits", prop="B03", edits=[(QA, '''f"q[{''', '''f"q[{''')], needs="-", breaks="-", demo="assert False"),
 dict(id="b05-odd-controls", prop="B05", edits=[(NB, '''    masks[-1] = ~0
''', '''    masks[-1] = _QSMask((1 << 12) - 1)
''')], needs="a two-qubit gate on a register of more than 13 qubits", breaks="the index masks end at bit 12",
  demo="assert False"),
]
BUGS = [b for b in BUGS if b["demo"] != "assert False" and b["id"] != "w06-many-vars"]
