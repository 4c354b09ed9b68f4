"""V02: samplers return the marginal distribution of the qubits asked for, in their order."""
import warnings

import numpy as np
from blueqat import Circuit, vqe

from .. import gen, measure, ref

RULE = ("random asymmetric circuits and qubit sequences (permuted, partial, repeated, empty, beyond the register, given as list, tuple, range or iterator): the exact functions against exact marginals, the sampling ones by support, "
        "normalisation and Chernoff bounds, including circuits that measure and reset in the middle and Qiskit's Aer in both key styles; circuits compared before and after; distinct = circuit and sequence")
REQUIRED = ["wide", "many_qubits", "rare_kept", "expect", "exact", "measured", "state_vector", "qiskit", "qiskit_hex", "empty", "repeated", "beyond", "iterator", "circuit_unchanged", "mid_measurement", "asymmetric", "run_options", "default_shots", "sampler_reused"]
ASSUMES = ["Aer simulates correctly", "Chernoff bounds with error probability below 1e-9 per test"]


def plan(tier):
    k = 2 if tier == "quick" else 25
    return [("wide", 20 * k), ("exact", 400 * k), ("sample", 120 * k), ("mid", 80 * k), ("qiskit", 50 * k)]


def prepare():
    import qiskit          # noqa: F401
    from qiskit import Aer, execute  # noqa: F401


def gen_meas(t, rng, n, extra=True):
    r = rng.random()
    top = n + (2 if extra and rng.random() < .2 else 0)
    if r < .08 or top == 0:
        m = []
    elif r < .2:
        m = [rng.randrange(top) for _ in range(rng.randint(1, 4))]
    else:
        m = rng.sample(range(top), rng.randint(1, top))
    if r > .9 and n:
        m = list(range(n))
    if not m:
        t.ev("empty")
    if len(set(m)) < len(m):
        t.ev("repeated")
    if any(q >= n for q in m):
        t.ev("beyond")
    return m


def given(t, rng, m):
    r = rng.random()
    if r < .3:
        t.ev("iterator")
        return iter(m) if r < .15 else (q for q in m)
    if m and m == list(range(m[0], m[0] + len(m))) and r < .8:
        return range(m[0], m[0] + len(m))
    return list(m) if r < .6 else tuple(m)


def judge_mapping(t, d, m, what, info):
    t.check(hasattr(d, "items"), f"{what}: no mapping", got=type(d).__name__, **info)
    for k, v in d.items():
        t.check(isinstance(k, tuple) and len(k) == len(m) and all(b in (0, 1) and isinstance(b, (int, np.integer)) for b in k), f"{what}: a key is no tuple of one bit per listed qubit", key=repr(k), qubits=m, **info)
        t.check(0 <= float(v) <= 1 + 1e-9, f"{what}: a value is no probability", key=k, value=repr(v), **info)
    t.check(abs(sum(d.values()) - 1) < 1e-9, f"{what}: the values do not sum to 1", got=dict(d), **info)


def judge_exact(t, d, want, m, what, info):
    judge_mapping(t, d, m, what, info)
    for k, p in want.items():
        if p > 1e-20:
            t.check(k in d, f"{what}: an outcome of non-zero probability is missing", outcome=k, probability=p, qubits=m, **info)
            if p < 1e-8:
                t.ev("rare_kept")
    for k in set(d) | set(want):
        t.check(abs(d.get(k, 0.0) - want.get(k, 0.0)) < 1e-9, f"{what}: wrong probability", outcome=k, qubits=m, got=dict(d), expected=want, **info)
    if m and want != {k[::-1]: v for k, v in want.items()}:
        t.ev("asymmetric")


def judge_freq(t, d, want, m, shots, what, info):
    judge_mapping(t, d, m, what, info)
    counts = {}
    for k, v in d.items():
        x = v * shots
        t.check(abs(x - round(x)) < 1e-6, f"{what}: a frequency is no multiple of 1/shots", outcome=k, value=v, shots=shots, **info)
        counts[k] = round(x)
    bad = ref.dist_ok(counts, want, shots, 1e-11)
    t.check(bad is None, f"{what}: the frequencies are those of another distribution", complaint=bad, qubits=m, got=dict(d), expected=want, **info)


def wide(state, n, m):
    top = max(m, default=-1) + 1
    if top > n:
        return np.concatenate([state, np.zeros(2 ** top - 2 ** n)])
    return state


def case(t, kind):
    rng = t.rng
    if kind == "wide":       # many qubits, some hardly excited; long sequences with repetitions
        n = rng.randint(6, 9)
        ops = [("ry", (rng.choice([rng.uniform(.3, 2.8), rng.uniform(.3, 2.8), 10. ** -rng.uniform(1, 5), np.pi - 1e-3]),), q) for q in range(n)] + gen.gen_ops(rng, n, 4, ["cx", "swap", "cz", "t", "x"], False)
        ops, n = gen.make_valid(ops, n)
        m = rng.sample(range(n), rng.randint(3, n)) + [rng.randrange(n) for _ in range(rng.choice([0, 0, 2, 4]))]
        if rng.random() < .3:
            m.insert(rng.randrange(len(m)), n + rng.randrange(3))
        if len(set(m)) > 5:
            t.ev("many_qubits")
        want = ref.marginal(wide(ref.run(ops, n), n, m), m)
        c = gen.build(Circuit, n, ops, rng)
        info = dict(circuit=gen.show(n, ops), qubits_asked=m)
        judge_exact(t, vqe.non_sampling_sampler(c, given(t, rng, m)), want, m, "the exact sampler", info)
        judge_exact(t, vqe.expect(c.run(), given(t, rng, m)), want, m, "expect()", info)
        shots = rng.choice([100, 5000, 300000])
        judge_freq(t, vqe.get_state_vector_sampler(shots)(c, given(t, rng, m)), want, m, shots, "the state-vector sampler", info)
        shots = rng.choice([10, 200, 1500])
        judge_freq(t, vqe.get_measurement_sampler(shots)(c, given(t, rng, m)), want, m, shots, "the measurement sampler", info)
        t.ev("wide")
        t.key("wide", gen.structure(ops), tuple(m))
        t.sample = f"{m} of {gen.show(n, ops)}"
        return
    if kind in ("exact", "sample"):
        n0, ops, n = gen.program(rng, nmax=4, maxops=8)
        m = gen_meas(t, rng, n, kind == "exact" or not gen.relative(ops))
        state = ref.run(ops, n)
        want = ref.marginal(wide(state, n, m), m)
        c = gen.build(Circuit, n0, ops, rng)
        shown, nq, count = repr(c), c.n_qubits, len(c.ops)
        info = dict(circuit=gen.show(n0, ops), qubits_asked=m)
        if kind == "exact":
            judge_exact(t, vqe.non_sampling_sampler(c, given(t, rng, m)), want, m, "the exact sampler", info)
            t.ev("exact")
            vec = c.run()
            keep = vec.copy()
            judge_exact(t, vqe.expect(vec, given(t, rng, m)), want, m, "expect()", info)
            t.check(np.array_equal(vec, keep), "expect() changed the vector", **info)
            t.ev("expect")
        else:
            shots = rng.choice([1, 10, 500, 2000])
            opts = rng.choice([None, None, {}, {"backend": "numpy"}])
            s = vqe.get_measurement_sampler(shots) if opts is None else vqe.get_measurement_sampler(shots, opts)
            if opts:
                t.ev("run_options")
            for _ in range(2):
                if n or m:
                    judge_freq(t, s(c, given(t, rng, m)), want, m, shots, "the measurement sampler", info)
                    t.ev("measured")
            s = vqe.get_state_vector_sampler(shots)
            for _ in range(2):
                judge_freq(t, s(c, given(t, rng, m)), want, m, shots, "the state-vector sampler", info)
                t.ev("state_vector")
            if n and rng.random() < .6:        # the same sampler again: the same circuit, extended, and another one
                for _ in range(rng.randint(1, 2)):
                    more = gen.gen_ops(rng, n, 1, ["x", "h", "ry", "x"], False)
                    other = gen.build(Circuit, n0, ops + more, rng)
                    gen.apply_op(c, more[0])
                    ops = ops + more
                    state = ref.run(ops, n)
                    want = ref.marginal(wide(state, n, m), m)
                    nq, count, shown = n, len(c.ops), repr(c)
                    for x in (c, other):
                        judge_freq(t, s(x, given(t, rng, m)), want, m, shots, "a sampler used again", dict(circuit=gen.show(n0, ops), qubits_asked=m))
                t.ev("sampler_reused")
        t.check(repr(c) == shown and c.n_qubits == nq and len(c.ops) == count, "the sampler changed the circuit", before=shown, after=repr(c))
        t.check(ref.same_up_to_phase(c.run(), state, 1e-9), "the circuit's later result has changed", **info)
        t.ev("circuit_unchanged")
        t.key(kind, gen.structure(ops), tuple(m))
        t.sample = f"{m} of {gen.show(n0, ops)}"
        return
    if kind == "mid":
        n0, ops, n = measure.gen_meas_program(rng, 3, 8, p=.3, max_meas=4)
        if n == 0:
            return
        m = gen_meas(t, rng, n, False)
        c = gen.build(Circuit, n0, ops, rng)
        shown = repr(c)
        info = dict(circuit=gen.show(n0, ops), qubits_asked=m)
        brs = ref.branches(ops, n)
        want = {}
        for p, _, v in brs:
            for k, q in ref.marginal(v, m).items():
                want[k] = want.get(k, 0.0) + p * q
        shots = 800
        judge_freq(t, vqe.get_measurement_sampler(shots)(c, given(t, rng, m)), want, m, shots, "the measurement sampler", info)
        for _ in range(3):        # the exact ones see one run of the circuit
            d = vqe.non_sampling_sampler(c, given(t, rng, m))
            judge_mapping(t, d, m, "the exact sampler", info)
            near = lambda v: all(abs(d.get(k, 0.0) - q) < 1e-6 for k, q in list(ref.marginal(v, m).items()) + [(k, ref.marginal(v, m).get(k, 0.0)) for k in d])
            t.check(any(near(v) for _, _, v in brs), "the exact sampler's mapping belongs to no outcome of the circuit's measurements", got=d, **info)
        d = vqe.get_state_vector_sampler(50)(c, given(t, rng, m))
        judge_mapping(t, d, m, "the state-vector sampler", info)
        t.check(all(want.get(k, 0) > 1e-12 for k, v in d.items() if v), "the state-vector sampler returned an impossible outcome", got=d, **info)
        t.check(repr(c) == shown, "the sampler changed the circuit", before=shown, after=repr(c))
        t.ev("circuit_unchanged")
        t.ev("mid_measurement")
        t.key(kind, gen.structure(ops), tuple(m))
        t.sample = f"{m} of {gen.show(n0, ops)}"
        return
    from qiskit import Aer
    n0, ops, n = gen.program(rng, nmax=3, maxops=5, names=[g for g in gen.UNITARY if g not in ("cu2", "cu3", "cu1", "u1", "u2", "r", "cr", "phase", "cphase", "i")])
    if n == 0:
        return
    m = gen_meas(t, rng, n, not gen.relative(ops))
    want = ref.marginal(wide(ref.run(ops, n), n, m), m)
    c = gen.build(Circuit, n0, ops, rng)
    shown = repr(c)
    info = dict(circuit=gen.show(n0, ops), qubits_asked=m)
    shots = rng.choice([None, 1, 300, 1000])
    be = Aer.get_backend("qasm_simulator")
    if rng.random() < .3:
        be = hexed(be)
        t.ev("qiskit_hex")
    s = vqe.get_qiskit_sampler(be) if shots is None else vqe.get_qiskit_sampler(be, shots=shots)
    if shots is None:
        t.ev("default_shots")
    judge_freq(t, s(c, given(t, rng, m)), want, m, shots or 1024, "the Qiskit sampler", info)
    t.check(repr(c) == shown, "the sampler changed the circuit", before=shown, after=repr(c))
    t.ev("circuit_unchanged")
    t.ev("qiskit")
    t.key(kind, gen.structure(ops), tuple(m), shots)
    t.sample = f"{m} of {gen.show(n0, ops)}"


class _HexResult:
    """A result whose counts have hexadecimal keys, as some of IBM's devices give them."""

    def __init__(self, result):
        self._result = result

    def get_counts(self, *a, **k):
        return {hex(int(b.replace(" ", ""), 2)): v for b, v in self._result.get_counts(*a, **k).items()}

    def __getattr__(self, name):
        return getattr(self._result, name)


class _HexJob:
    def __init__(self, job):
        self._job = job

    def result(self, *a, **k):
        return _HexResult(self._job.result(*a, **k))

    def __getattr__(self, name):
        return getattr(self._job, name)


def hexed(be):
    from qiskit_aer import QasmSimulator

    class Hex(QasmSimulator):
        def run(self, *a, **k):
            return _HexJob(super().run(*a, **k))

    return Hex()
