V = "blueqat/vqe.py"
W = "blueqat/wq.py"
U = "blueqat/utils.py"
EO = "blueqat/experimental/operations.py"
EU = "blueqat/experimental/utils.py"
PRE = '''
import itertools
import numpy as np
from blueqat import Circuit, vqe, wq
from blueqat.pauli import X, Y, Z, I
'''
BUGS = [
 dict(id="v01-first-z-shares", prop="V01", edits=[(V, '''            c = circuit.copy()
            for op in meas.ops:
''', '''            # Z products need no basis change, so that the circuit can be used as it is.
            c = circuit if meas.ops and meas.ops[0].op == "Z" else circuit.copy()
            for op in meas.ops:
''')],
  needs="a product that starts with Z on its lowest qubit and has X or Y later, followed by other terms", breaks="the basis change stays in the circuit for the later terms",
  demo=PRE + '''
h = (Z[0] * X[1] + Z[1] + 0.5 * X[0]).simplify()
c = Circuit().ry(0.4)[0].ry(1.1)[1].cx[0, 1]
a = vqe.AnsatzBase(h, 0)
a.make_sparse()
assert abs(a.get_energy(c.copy(), vqe.non_sampling_sampler) - a.get_energy_sparse(c.copy())) < 1e-9
'''),
 dict(id="v01-parity-small", prop="V01", edits=[(V, '''                if sum(bits) % 2:
''', '''                if sum(bits) in (1, 3):
''')],
  needs="a product of five or more operators", breaks="parity of five ones counts as even",
  demo=PRE + '''
h = (Z[0] * Z[1] * Z[2] * Z[3] * Z[4] + 0.0).simplify()
c = Circuit(5).x[:]
assert abs(vqe.AnsatzBase(h, 0).get_energy(c, vqe.non_sampling_sampler) + 1) < 1e-9
'''),
 dict(id="v01-transposed", prop="V01", edits=[(V, '''    return np.vdot(vec, mat.dot(vec)).real
''', '''    return np.dot(vec, mat.dot(vec.conj())).real
''')],
  needs="a Hamiltonian with an odd number of Y in a product, and a state with complex amplitudes", breaks="the expectation is that of the transposed matrix",
  demo=PRE + '''
a = vqe.AnsatzBase((Y[0] + 0.25).simplify(), 0)
a.make_sparse()
assert abs(a.get_energy_sparse(Circuit().rx(-np.pi / 2)[0]) - 1.25) < 1e-9
'''),
 dict(id="v02-small-probability", prop="V02", edits=[(V, '''        if p != 0.0:
''', '''        if p > 1e-8:
''')],
  needs="an outcome of probability below 1e-8 (or many amplitudes as small)", breaks="rare outcomes are missing from the marginals",
  demo=PRE + '''
e = vqe.expect(Circuit().ry(1e-4)[0].run(), (0,))
assert (1,) in e and abs(e[1,] - 2.5e-9) < 1e-12, e
'''),
 dict(id="v02-duplicate-qubit", prop="V02", edits=[(V, '''    mask = reduce(lambda acc, v: acc | (1 << v), meas, 0)
''', '''    mask = sum(1 << v for v in meas)
''')],
  needs="a qubit listed twice in the sequence", breaks="the mask selects another qubit",
  demo=PRE + '''
e = vqe.expect(Circuit().x[0].h[1].run(), (0, 0))
assert set(e) == {(1, 1)}, e
'''),
 dict(id="v02-sv-sampler-memo", prop="V02", edits=[(V, '''    def sampling_by_measurement(circuit, meas):
        val = 0.0
        e = expect(circuit.run(returns="statevector"), meas)
''', '''    memo = {}

    def sampling_by_measurement(circuit, meas):
        meas = tuple(meas)
        key = id(circuit), circuit.n_qubits, meas
        if key not in memo:
            memo[key] = circuit, expect(circuit.run(returns="statevector"), meas)
        _, e = memo[key]
''')],
  needs="the same circuit object sampled twice with the same sampler, gates appended in between", breaks="frequencies of the circuit as it was",
  demo=PRE + '''
s = vqe.get_state_vector_sampler(10)
c = Circuit().x[0]
assert s(c, (0,)) == {(1,): 1.0}
c.x[0]
assert s(c, (0,)) == {(0,): 1.0}
'''),
 dict(id="v02-hex-width", prop="V02", edits=[(V, '''            bits = "0"*100 + format(bits, "b")
''', '''            bits = format(bits, "b").zfill(len(meas))
''')],
  needs="a Qiskit backend that reports hexadecimal outcomes, and a sequence that leaves out low qubits", breaks="leading zeros above the number of measured qubits are missing (IndexError)",
  demo=PRE + '''
import qiskit
from qiskit_aer import AerSimulator
real = qiskit.result.Result.get_counts
qiskit.result.Result.get_counts = lambda self, *a: {hex(int(k.replace(" ", ""), 2)): v for k, v in real(self, *a).items()}
s = vqe.get_qiskit_sampler(AerSimulator(), shots=5)
assert s(Circuit().x[0].i[2], (2,)) == {(0,): 1.0}
'''),
 dict(id="v03-mixer-width", prop="V03", edits=[(V, '''                c.rx(beta)[:]
''', '''                c.rx(beta)[:self.hamiltonian.max_n() + 1]
''')],
  needs="an initial circuit with more qubits than the Hamiltonian", breaks="the mixer leaves out the additional qubits",
  demo=PRE + '''
a = vqe.QaoaAnsatz(Z[0] * Z[1], 1, Circuit(3).h[0, 1])
v = a.get_circuit(np.array([0.5, 0.2])).run(ignore_global=False)
w = Circuit(3).h[0, 1].rz(0)[0]
assert abs(sum(abs(v[4:]) ** 2) - 0.5) < 1e-9
'''),
 dict(id="v03-trotter-symmetric", prop="V03", edits=[(V, '''                for evo in self.mixer_time_evolutions:
                    evo(c, beta)
''', '''                for evo in self.mixer_time_evolutions:
                    evo(c, beta)
                self.mixer_time_evolutions.reverse()
''')],
  needs="a mixer with non-commuting terms and two or more steps (or a second circuit of a one-step ansatz)", breaks="every other application of the mixer is in reverse order",
  demo=PRE + '''
a = vqe.QaoaAnsatz(Z[0] * Z[1], 1, Circuit(2).h[0].x[1], [X[0] * X[1] + 0.0 * I, Z[0].to_term()][1:] + [X[0] * X[1], Y[0].to_term()])
p = np.array([0.3, 0.2])
assert np.allclose(a.get_circuit(p).run(), a.get_circuit(p).run())
'''),
 dict(id="v03-params-inplace", prop="V03", edits=[(V, '''        betas = params[:self.step]
        gammas = params[self.step:]
        for beta, gamma in zip(betas, gammas):
            beta *= np.pi
            gamma *= 2 * np.pi
''', '''        betas = params[:self.step]
        gammas = params[self.step:]
        if isinstance(params, list):
            # Lists are scaled at once.
            params[:] = list(np.multiply(betas, np.pi)) + list(np.multiply(gammas, 2 * np.pi))
            betas, gammas = params[:self.step], params[self.step:]
        for beta, gamma in zip(betas, gammas):
            if not isinstance(params, list):
                beta *= np.pi
                gamma *= 2 * np.pi
''')],
  needs="parameters given as a list", breaks="the caller's list is rescaled",
  demo=PRE + '''
a = vqe.QaoaAnsatz(Z[0] * Z[1], 1)
p = [0.3, 0.2]
a.get_circuit(p)
assert p == [0.3, 0.2], p
'''),
 dict(id="v04-store-first", prop="V04", edits=[(V, '''        if store:
            self._probs = probs
''', '''        if store or self._probs is None:
            self._probs = probs
''')],
  needs="store=False on the first call", breaks="an unstored distribution (perhaps of another sampler) becomes the cached one",
  demo=PRE + '''
r = vqe.Vqe(vqe.QaoaAnsatz(Z[0] * Z[1]), minimizer=lambda f, n: np.array([0.3] * n)).run()
r.get_probs(sampler=lambda c, m: {(0, 0): 1.0}, store=False)
assert r.get_probs() != {(0, 0): 1.0}
'''),
 dict(id="v04-rounded-order", prop="V04", edits=[(V, '''        return tuple(sorted(self.get_probs().items(), key=lambda item: -item[1]))[:n]
''', '''        return tuple(sorted(self.get_probs().items(), key=lambda item: (-round(item[1], 3), item[0])))[:n]
''')],
  needs="two outcomes whose probabilities differ by less than 1e-3", breaks="the less likely one may be listed first",
  demo=PRE + '''
r = vqe.VqeResult()
r._probs = {(0,): 0.4999, (1,): 0.5001}
assert r.most_common(1)[0][0] == (1,)
'''),
 dict(id="v04-same-sampler-cached", prop="V04", edits=[(V, '''            rerun = sampler is not None
''', '''            rerun = sampler is not None and sampler is not self.vqe.sampler
''')],
  needs="get_probs with the very sampler of the Vqe, after the probabilities were cached", breaks="the sampler is not asked again",
  demo=PRE + '''
calls = []
def sampler(c, m):
    calls.append(1)
    return vqe.non_sampling_sampler(c, m)
v = vqe.Vqe(vqe.QaoaAnsatz(Z[0] * Z[1]), minimizer=lambda f, n: np.array([0.3] * n), sampler=sampler)
r = v.run()
r.get_probs()
n = len(calls)
r.get_probs(sampler=sampler)
assert len(calls) == n + 1
'''),
 dict(id="v04-objective-memo", prop="V04", edits=[(V, '''        def obj_expect(params):
            circuit = self.get_circuit(params)
            circuit.make_cache()
            return self.get_energy_sparse(circuit)
''', '''        memo = {}

        def obj_expect(params):
            key = tuple(round(float(p), 5) for p in params)
            if key not in memo:
                circuit = self.get_circuit(params)
                circuit.make_cache()
                memo[key] = self.get_energy_sparse(circuit)
            return memo[key]
''')],
  needs="a minimizer that evaluates points closer than 1e-5 (finite differences)", breaks="the objective is a step function: gradients are zero",
  demo=PRE + '''
got = []
def mini(f, n):
    p = np.array([0.3, 0.2])
    got.append(f(p))
    got.append(f(p + 1e-7))
    return p
vqe.Vqe(vqe.QaoaAnsatz(Z[0] * Z[1] + 0.5 * Z[0]), minimizer=mini).run()
assert got[0] != got[1]
'''),
 dict(id="w01-int-ising", prop="W01", edits=[(W, '''        self.J = [np.random.choice([1.,1.],nn) for j in range(nn)]
''', '''        self.J = np.ones_like(self.qubo)
''')],
  needs="an integer matrix with an off-diagonal sum that is not a multiple of 4", breaks="couplings are truncated to integers",
  demo=PRE + '''
o = wq.Opt()
o.qubo = [[1, 3], [0, -2]]
o.qi()
for q in itertools.product((0, 1), repeat=2):
    s = 2 * np.array(q) - 1
    assert abs(wq.Ei(s, o.J) + o.ep - (q[0] + 3 * q[0] * q[1] - 2 * q[1])) < 1e-9
'''),
 dict(id="w01-upper-zero", prop="W01", edits=[(W, '''            h += qubo_bit(i)*qubo_bit(j) * (qubo[i][j] + qubo[j][i])
''', '''            if qubo[i][j] or i == 0:
                h += qubo_bit(i)*qubo_bit(j) * (qubo[i][j] + qubo[j][i])
''')],
  needs="an entry below the diagonal whose mirror above it is zero, not in the first column", breaks="the coupling is left out of the Pauli form",
  demo=PRE + '''
h = wq.pauli([[1.0, 0, 0], [0, 1.0, 0], [0, 5.0, 1.0]])
m = h.to_matrix()
assert abs(m[6, 6] - 7) < 1e-9, m[6, 6]
'''),
 dict(id="w02-stale-ising", prop="W02", edits=[(W, '''        nn = len(self.qubo)
        self.J = [np.random''', '''        nn = len(self.qubo)
        if len(self.J) == nn and getattr(self, "_converted", None) is self.qubo:
            return
        self._converted = self.qubo
        self.J = [np.random''')],
  needs="a second run after the matrix was changed in place", breaks="the second run solves and reports the first problem",
  demo=PRE + '''
o = wq.Opt()
o.qubo = np.diag([-3.0, -3.0])
o.sa()
o.qubo[0][0] = 8.0
q = o.sa()
assert abs(o.E[-1] - (8.0 * q[0] - 3.0 * q[1])) < 1e-9, (q, o.E[-1])
'''),
 dict(id="w02-target-ignored", prop="W02", edits=[(W, '''            while T>targetT:
''', '''            while T>min(targetT, self.Tf):
''')],
  needs="a target temperature above the final one", breaks="the annealing goes on below the temperature asked for",
  demo=PRE + '''
o = wq.Opt()
o.qubo = np.diag([-0.1] * 6)
o.ite = 60
r = o.run(shots=60, targetT=1.0)
assert abs(np.mean(r) - 0.525) < 0.15, np.mean(r)
'''),
 dict(id="w02-last-flip", prop="W02", edits=[(W, '''                qtemp = (np.asarray(q,int)+1)/2
                qq.append''' if False else '''            qtemp = (np.asarray(q,int)+1)/2
''', '''            if shots > 1 and i == shots - 1:
                # The best of the shots comes last.
                q = best if min(EE) < Ei(q,self.J)+self.ep - 1.0 else q
            if i == 0 or EE[-1] <= best_energy:
                best, best_energy = q.copy(), EE[-1]
            qtemp = (np.asarray(q,int)+1)/2
''')],
  needs="several shots where the last visited a state better than its final one by more than 1", breaks="the bits of the last shot belong to another energy",
  demo=PRE + '''
np.random.seed(3)
bad = 0
for _ in range(20):
    o = wq.Opt()
    o.qubo = np.diag([-2.0, 3.0, 2.5, -2.0])
    o.ite = 5
    r = o.run(shots=4, targetT=2.0)
    for q, e in zip(r, o.E):
        bad += abs(float(np.array(q) @ o.qubo @ np.array(q)) - e[-1]) > 1e-9
assert not bad
'''),
 dict(id="w03-fixed-field", prop="W03", edits=[(W, '''        while G>self.Gf:
            for _ in range(self.ite):
''', '''        field = G
        while field>self.Gf:
            for _ in range(self.ite):
'''), (W, '''            self.E.append(Ei_sqa(q, J, self.Tf, self.tro, G)+self.ep)
            G *= self.R
''', '''            self.E.append(Ei_sqa(q, J, self.Tf, self.tro, field)+self.ep)
            field *= self.R
''')],
  needs="a schedule in which the field changes, and a look at the agreement between slices", breaks="the coupling between the slices stays that of the initial field",
  demo=PRE + '''
np.random.seed(1)
agree = []
for _ in range(40):
    o = wq.Opt()
    o.qubo = np.zeros((2, 2))
    o.tro, o.Gs, o.Gf, o.R, o.Tf, o.ite = 4, 10, 0.1, 0.1, 1.0, 400
    q = o.sqa()
    agree.append(np.mean(q * np.roll(q, 1, axis=0)))
assert np.mean(agree) > 0.6, np.mean(agree)
'''),
 dict(id="w03-long-range", prop="W03", edits=[(W, '''                    if j == x:
                        dE += -2*q[y][x]*J[x][x] / self.tro
''', '''                    if j == x:
                        dE += -2*q[y][x]*J[x][x] / max(self.tro, 2)
''')],
  needs="a single Trotter slice", breaks="the biases count half in the moves",
  demo=PRE + '''
np.random.seed(1)
same = 0
for _ in range(400):
    o = wq.Opt()
    o.qubo = [[2.0]]
    o.tro, o.Gs, o.Gf, o.R, o.Tf, o.ite = 1, 1.0, .9, .1, 1.0, 60
    same += o.sqa()[0][0] == 1
assert abs(same / 400 - np.exp(-2) / (1 + np.exp(-2))) < 0.08, same
'''),
 dict(id="w03-dw-spin-order", prop="W03", edits=[(W, '''            if i[0] < len(harr) and i[1] < len(harr):
''', '''            if sum(i) < 2 * len(harr) - 2:
''')],
  needs="a D-Wave topology with an edge from a problem qubit to one beyond the problem, or the edge of the last two qubits", breaks="IndexError or a foreign edge",
  demo=PRE + '''
import sys, types
sent = {}
class Solver:
    nodes = {0, 1, 2, 3, 4}
    undirected_edges = {(0, 1), (0, 3), (1, 2), (2, 3), (3, 4)}
    def sample_ising(self, lin, quad, **k):
        sent.update(lin=lin, quad=quad)
        return types.SimpleNamespace(samples=[[1, -1, 1, 1, 1]])
class Client:
    @staticmethod
    def from_config(**k):
        return types.SimpleNamespace(get_solver=lambda: Solver())
d, c = types.ModuleType("dwave"), types.ModuleType("dwave.cloud")
c.Client = Client
d.cloud = c
sys.modules.update({"dwave": d, "dwave.cloud": c})
o = wq.Opt()
o.qubo = np.triu(np.ones((3, 3)))
o.dw()
assert set(sent["quad"]) == {(0, 1), (1, 2)}, sent
'''),
 dict(id="w04-zeros-cache", prop="W04", edits=[(W, '''    return np.zeros((zeros_ele,zeros_ele))
''', '''    if zeros_ele not in _zeros:
        _zeros[zeros_ele] = np.zeros((zeros_ele,zeros_ele))
    return _zeros[zeros_ele]

_zeros = {}
''')],
  needs="writing to the result and calling again with the same size", breaks="the second result holds what was written to the first",
  demo=PRE + '''
wq.zeros(3)[0][0] = 1
assert not wq.zeros(3).any()
'''),
 dict(id="w04-dbms-offset", prop="W04", edits=[(W, '''        cc = cc + dbms_arr[k]
''', '''        cc = dbms_arr[k] + (dbms_arr[0] if k == 1 else 0) + (k > 2) * sum(dbms_arr[:k])
''')],
  needs="four or more layers - only the fourth is misplaced", breaks="weights of a deep machine",
  demo=PRE + '''
m = wq.dbms([2, 2, 2, 2, 2], 1)
for i in range(10):
    for j in range(10):
        assert m[i][j] == (0.5 if i == j else 1.0 if j // 2 == i // 2 + 1 else 0.0), (i, j)
'''),
 dict(id="w04-add-inplace", prop="W04", edits=[(W, '''                self.qubo = np.array(self.qubo)+M*np.array(qubo)
''', '''                self.qubo = np.add(self.qubo, M*np.array(qubo), out=self.qubo if isinstance(self.qubo, np.ndarray) and self.qubo.dtype == float else None)
''')],
  needs="a float array assigned to Opt.qubo before add", breaks="the caller's array is changed",
  demo=PRE + '''
a = np.diag([1.0, 2.0])
o = wq.Opt()
o.qubo = a
o.add([[1, 1], [0, 1]])
assert a[0][0] == 1.0
'''),
 dict(id="w05-last-digit", prop="W05", edits=[(W, '''    to_i = lambda s: int(str(s)[1:])
''', '''    to_i = lambda s: int(str(s)[-1:]) if len(str(s)) < 3 else int(str(s)[-2:])
''')],
  needs="a variable with an index of three digits", breaks="q100 is taken for q0",
  demo=PRE + '''
import sympy
q = wq.make_qs(102)
m = wq.qn_to_qubo(q[101] + 2 * q[3])
assert len(m) == 102 and m[101][101] == 1
'''),
 dict(id="w05-expand-half", prop="W05", edits=[(W, '''        for i in range(deg):
            for j in f.free_symbols:
''', '''        for i in range((deg + 1) // 2):
            for j in f.free_symbols:
''')],
  needs="a square in an expression of total degree five or more", breaks="low powers remain",
  demo=PRE + '''
import sympy
a = sympy.sympify(wq.Opt().expand_qubo("q0**2*q1*q2*q3 + q0**2"))
assert sympy.expand(a - sympy.sympify("q0*q1*q2*q3 + q0")) == 0, a
'''),
 dict(id="w05-matrix-digit", prop="W05", edits=[(W, '''                    optm[int(repr(i)[1:])][int(repr(j)[1:])] = qubo.coeff(i*j)
''', '''                    optm[int(repr(i)[1:])][int(repr(j)[1:2])] = qubo.coeff(i*j)
''')],
  needs="a variable q10 or higher in a product", breaks="products with two-digit variables are misplaced",
  demo=PRE + '''
o = wq.Opt()
m = np.array(o.qubo_to_matrix("2*q10*q11 + 3*q1*q10"), float)
assert m[10][11] == 2 and m[1][10] == 3, m
'''),
 dict(id="w06-aux-pair-free", prop="W06", edits=[(W, '''                    constraints += 3*v + v1*v2 - 2*v1*v - 2*v2*v
''', '''                    if v1 not in qs[:i_var] or v2 not in qs[:i_var]:
                        constraints += 3*v + v1*v2 - 2*v1*v - 2*v2*v
''')],
  needs="a term of degree five or more, where two auxiliaries are multiplied", breaks="the product of two auxiliaries is not enforced",
  demo=PRE + '''
import sympy
q = wq.make_qs(8)
a = wq.make_qs(20, 40)
e, c, m = wq.nbody_separation(sympy.prod(q) + q[0], a)
s = {x: 1 for x in q}
aux = [v for v in m.values()]
n = 0
for bits in itertools.product((0, 1), repeat=len(aux)):
    n += c.subs({**s, **dict(zip(aux, bits))}) == 0
assert n == 1, n
'''),
 dict(id="w06-remembered", prop="W06", edits=[(W, '''    mapping = {}
    new_expr''', '''    mapping = _products.setdefault(tuple(qs), {})
    new_expr'''), (W, '''    i_var = 0
    for arg in expr.args:
''', '''    i_var = len(mapping)
    for arg in expr.args:
'''), (W, '''def qn_to_qubo(expr):
''', '''_products = {}

def qn_to_qubo(expr):
''')],
  needs="two reductions with the same auxiliary symbols", breaks="the second has no constraints for the products of the first",
  demo=PRE + '''
q, a = wq.make_qs(6), wq.make_qs(20, 40)
for _ in range(2):
    e, c, m = wq.nbody_separation(q[0] * q[1] * q[2] + q[0], a)
    assert c != 0 and len(m) == 1
'''),
 dict(id="w07-saturated", prop="W07", edits=[(W, '''def sigm(x):
    return 1.0/(1.0+np.exp(-x))
''', '''def sigm(x):
    if x > 8:
        # exp underflows
        return 1.0
    return 1.0/(1.0+np.exp(-x))
''')],
  needs="a large bias (above 8)", breaks="hidden probabilities above 0.9997 become 1",
  demo=PRE + '''
m = np.zeros((2, 2))
m[1][1] = 9.0
assert wq.rbm_hmodel([1], m)[0] < 1.0
'''),
 dict(id="w07-pairs-first-layer", prop="W07", edits=[(W, '''            for j in range(vdataN,dbmsN):
                data_qubo''' if False else '''            for j in range(self.RBMvisible,self.RBMvisible+self.RBMhidden):
''', '''            for j in range(max(self.RBMvisible, self.RBMhidden),self.RBMvisible+self.RBMhidden):
''')],
  needs="a machine with more hidden than visible units", breaks="pairs of the first hidden units are left out of the model statistics",
  demo=PRE + '''
o = wq.Opt()
o.setRBM([1, 2])
o.run = lambda **k: [[1, 1, 1], [1, 0, 1]]
m = o.rbm_model_qubo(shots=2)
assert np.allclose(m, [[1, 0.5, 1], [0, 0.5, 0], [0, 0, 1]]), m
'''),
 dict(id="u01-threshold", prop="U01", edits=[(U, '''        if abs(q) > 0.0000001:
''', '''        if abs(q)**2 > 0.0000001:
''')],
  needs="a first entry with a modulus between 1e-7 and 3e-4", breaks="it is taken for zero and keeps its phase",
  demo=PRE + '''
from blueqat.utils import ignore_global_phase
v = np.array([1e-5j, 1.0])
ignore_global_phase(v)
assert abs(v[0] - 1e-5) < 1e-12, v
'''),
 dict(id="u01-empty-counter", prop="U01", edits=[(U, '''    if isinstance(bitstr, Counter):
''', '''    if bitstr and isinstance(bitstr, Counter):
''')],
  needs="an empty Counter", breaks="a plain dict is returned (no most_common, no default 0)",
  demo=PRE + '''
from collections import Counter
from blueqat.utils import to_inttuple
assert isinstance(to_inttuple(Counter()), Counter)
'''),
 dict(id="u01-not-in-place", prop="U01", edits=[(U, '''            statevec *= ang
            break
''', '''            if abs(ang - 1) > 1e-3:
                statevec *= ang
            break
''')],
  needs="a global phase below 1e-3", breaks="a small phase is left",
  demo=PRE + '''
from blueqat.utils import ignore_global_phase
v = np.array([np.exp(0.0005j), 0])
assert abs(ignore_global_phase(v)[0] - 1) < 1e-9
'''),
 dict(id="u02-add-empty", prop="U02", edits=[(EO, '''        return Ops(max(self.n_qubits, other.n_qubits), self.ops + other.ops)
''', '''        if not self.ops:
            return other
        return Ops(max(self.n_qubits, other.n_qubits), self.ops + other.ops)
''')],
  needs="concatenation to an empty list that has more qubits than the other", breaks="the qubit count is lost",
  demo=PRE + '''
from blueqat.experimental import Ops
assert (Ops(5) + Ops().h[0]).n_qubits == 5
'''),
 dict(id="u02-partial-gate", prop="U02", edits=[(EO, '''        n_qubits = max(self.ops.n_qubits, gate.get_maximum_index(args) + 1)
''', '''        n_qubits = max(self.ops.n_qubits, gate.get_maximum_index(args) + 1) if self.ops.ops else gate.get_maximum_index(args) + 1
''')],
  needs="the first gate of a list that was given a qubit count", breaks="the count shrinks to the first gate's qubits",
  demo=PRE + '''
from blueqat.experimental import Ops
assert Ops(4).x[0].n_qubits == 4
'''),
 dict(id="u02-unitary-global", prop="U02", edits=[(EU, '''        if bitmask:
            c.x[bitmask]
''', '''        if len(bitmask) > 2:
            # A product state can be prepared from the complement, which is shorter.
            c.x[:n_qubits].x[tuple(k for k in range(n_qubits) if k not in bitmask and k < 3)]
        elif bitmask:
            c.x[bitmask]
''')],
  needs="four or more qubits: a basis state with three ones and a zero above the third", breaks="columns of other basis states",
  demo=PRE + '''
from blueqat.experimental.utils import circuit_to_unitary
assert np.allclose(circuit_to_unitary(Circuit(4).i[3]), np.eye(16))
'''),
]
