"""A stand-in qgate package: records the operations it is given and simulates them."""
import sys
import types

import numpy as np

from . import ref

LOG = []            # simulators created: dict(kind, prefs, sim)
SCRIPT = None       # scripted histogram {value: count} for the next sampling, or None to sample
RNG = np.random.RandomState(0)

NP = {"ID": 0, "X": 0, "Y": 0, "Z": 0, "H": 0, "T": 0, "S": 0, "RX": 1, "RY": 1, "RZ": 1, "U1": 1, "U2": 2, "U": 3, "SWAP": 0, "ExpiI": 1}
MAT = {"ID": lambda: ref.I2, "X": lambda: ref.X, "Y": lambda: ref.Y, "Z": lambda: ref.Z, "H": lambda: ref.H, "T": lambda: ref.phase(np.pi / 4), "S": lambda: ref.phase(np.pi / 2),
       "RX": ref.rx, "RY": ref.ry, "RZ": ref.rz, "U1": ref.phase, "U2": ref.u2, "U": ref.u3, "SWAP": lambda: ref.SWAP, "ExpiI": lambda t: np.exp(1j * t) * ref.I2}


class GT:
    def __init__(self, name, params):
        if len(params) != NP[name]:
            raise TypeError(f"{name} takes {NP[name]} parameters, got {params}")
        self.name, self.params = name, tuple(float(p) for p in params)


class Qreg:
    pass


class Reference:
    value = None


class Gate:
    def __init__(self, gt):
        self.gt, self.ctrls, self.qregs, self.adjoint = gt, (), (), False

    def set_ctrllist(self, c):
        self.ctrls = tuple(c) if isinstance(c, (list, tuple)) else (c,)

    def set_qreg(self, q):
        if not isinstance(q, Qreg):
            raise TypeError("set_qreg takes one Qreg")
        self.qregs = (q,)

    def set_adjoint(self, b):
        self.adjoint = bool(b)


class MultiQubitGate(Gate):
    def set_qreglist(self, qs):
        if not all(isinstance(q, Qreg) for q in qs):
            raise TypeError("set_qreglist takes Qregs")
        self.qregs = tuple(qs)


class Measure:
    def __init__(self, r, q):
        if not isinstance(r, Reference) or not isinstance(q, Qreg):
            raise TypeError("Measure takes a Reference and a Qreg")
        self.ref, self.qreg = r, q


class ObservationList:
    def __init__(self, ordering, obs, mask):
        self.ordering, self.obs, self.mask = ordering, np.asarray(obs), mask

    def histgram(self):
        h = {}
        for v in self.obs:
            h[int(v)] = h.get(int(v), 0) + 1
        return h


class Pool:
    def __init__(self, prob, empty_lanes, ordering):
        self.prob, self.ordering = prob, ordering

    def sample(self, shots):
        if SCRIPT is not None:
            return ObservationList(self.ordering, [v for v, c in SCRIPT(len(self.ordering), shots).items() for _ in range(c)], 0)
        p = np.clip(self.prob, 0, None)
        return ObservationList(self.ordering, RNG.choice(len(p), size=shots, p=p / p.sum()), 0)


class States:
    def __init__(self, sim):
        self.sim = sim

    def __getitem__(self, k):
        return self.sim.state.copy()[k]


class Qubits:
    def __init__(self, sim):
        self.sim = sim
        self.states = States(sim)

    def set_ordering(self, qregs):
        self.sim.ordering = list(qregs)

    def create_sampling_pool(self, qregs, factory=None):
        sim = self.sim
        qregs = list(qregs)
        sim.sampled = qregs
        lanes = [sim.ordering.index(q) for q in qregs]
        full = np.abs(sim.state) ** 2
        # a register no gate has touched is not held by the simulator: an empty lane of the pool
        empty = [i for i, q in enumerate(qregs) if q not in sim.touched] if factory is not None else []
        held = [l for i, l in enumerate(lanes) if i not in empty]
        prob = np.zeros(2 ** len(held))
        for i, p in enumerate(full):
            prob[sum(((i >> l) & 1) << k for k, l in enumerate(held))] += p
        return (factory or Pool)(prob, empty, qregs)


class Obs:
    def __init__(self, v):
        self.int = v


class Simulator:
    def __init__(self):
        self.ops, self.ordering, self.runs = [], None, 0
        self.qubits = Qubits(self)
        self.touched = set()
        self.state = None

    def run(self, ops):
        self.runs += 1
        ops = list(ops)
        self.ops += ops
        n = len(self.ordering)
        v = ref.zero_state(n)
        at = {id(q): i for i, q in enumerate(self.ordering)}
        for op in ops:
            if isinstance(op, Measure):
                q = at[id(op.qreg)]
                one = (np.arange(2 ** n) >> q) & 1 == 1
                p1 = float(np.sum(np.abs(v[one]) ** 2))
                bit = int(RNG.random_sample() < p1)
                v = np.where(one == bool(bit), v, 0) / np.sqrt(p1 if bit else 1 - p1)
                op.ref.value = bit
                self.touched.add(op.qreg)
                continue
            m = MAT[op.gt.name](*op.gt.params)
            if op.adjoint:
                m = m.conj().T
            k = len(op.ctrls)
            if k:
                d = m.shape[0]
                big = np.eye(d << k, dtype=complex)
                idx = [(i << k) | ((1 << k) - 1) for i in range(d)]
                big[np.ix_(idx, idx)] = m
                m = big
            self.touched.update(op.qregs + op.ctrls)
            v = ref.apply_matrix(v, m, [at[id(q)] for q in op.ctrls + op.qregs], n)
        self.state = v

    def obs(self, refs):
        v = 0
        for i, r in enumerate(refs):
            v |= (r.value or 0) << i
        return Obs(v)


def install():
    q = types.ModuleType("qgate")
    model = types.ModuleType("qgate.model")
    gtm = types.ModuleType("qgate.model.gate_type")
    for name in NP:
        setattr(gtm, name, (lambda nm: lambda *a: GT(nm, a))(name))
    for c in (Qreg, Reference, Gate, MultiQubitGate, Measure):
        setattr(model, c.__name__, c)
    model.gate_type = gtm
    q.model = model
    q.prefs = types.SimpleNamespace(dynamic="dynamic", static="static", one_static="one_static")

    def maker(kind):
        def f(**prefs):
            s = Simulator()
            LOG.append((kind, prefs, s))
            return s
        return f
    sim = types.ModuleType("qgate.simulator")
    for k in ("cpu", "cuda", "py"):
        setattr(sim, k, maker(k))
    sim.observation = types.SimpleNamespace(ObservationList=ObservationList)
    q.simulator = sim
    for m in (q, model, gtm, sim):
        sys.modules[m.__name__] = m
    return q
