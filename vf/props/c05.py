"""C05: c + c.dagger() is the identity; dagger is the reference inverse; measurement refused or skipped."""
import itertools

import numpy as np
from blueqat import BlueqatGlobalSetting, Circuit
from blueqat.gate import OneQubitGate, RXGate

from .. import gen, ref
from ..history import dagger_op

RULE = ("random unitary programs (<=5 qubits, all gates, aliases, slices, negative indices, angle classes) and every gate alone on every basis state; c+c^, c^+c, c^ alone and "
        "c^^ judged on a random entangled input and on basis states; with measurement/reset: ValueError, or inverse of the rest; distinct = structure")
REQUIRED = ["inverse_laws", "reference_inverse", "double_dagger", "refused", "ignored_measurement", "original_unchanged", "basis_states", "echoes", "custom_gates", "no_conjugate_refused"]
NAMES = gen.UNITARY


def plan(tier):
    k = 4 if tier == "quick" else 30
    return [("each", len(NAMES) * (4 if tier == "quick" else 40)), ("rand", 1400 * k), ("meas", 400 * k), ("custom", 100 * k)]


def overlapping(ops, n):
    """Two-qubit gates over several pairs that share qubits: their conjugate needs the pairs in reversed order."""
    for o in ops:
        if ref.arity(o[0]) == 2:
            ps = ref.resolve(o[0], o[2], n)
            flat = [q for p in ps for q in p]
            if len(flat) != len(set(flat)):
                return True
    return False


def snapshot(c):
    return [(g.lowername, repr(g.targets), tuple(g.params)) for g in c.ops], c.n_qubits, c.get_default_backend_name()


def echoes(rng, ops):
    """Gates of the program come again, with opposite, very close, permuted or equal angles."""
    ops = list(ops)
    for _ in range(rng.randint(1, 3)):
        turned = [o for o in ops if o[1]] or ops
        if not turned:
            return ops
        name, ps, tg = rng.choice(turned)
        how = rng.choice(["minus", "minus", "close", "same", "permuted", "turn"])
        ps = tuple({"minus": lambda: -p, "close": lambda: p + rng.choice([1e-4, -1e-5, 2e-6, 1e-7]), "turn": lambda: p + 2 * np.pi}.get(how, lambda: p)() for p in ps)
        if how == "permuted":
            ps = tuple(rng.sample(ps, len(ps)))
        ops.insert(rng.randrange(len(ops) + 1), (name, ps, tg))
    return ops


def judge(t, n0, ops, n, c=None, prefix=None, law=True):
    """c is the circuit of ops (unitary part `ops` only); checks its dagger."""
    rng = t.rng
    if c is None:
        c = gen.build(Circuit, n0, ops, rng)
    if rng.random() < .3:
        c.run()
    before = snapshot(c)
    d = c.dagger()
    t.check(snapshot(c) == before, "dagger changed the original circuit", circuit=gen.show(n0, ops))
    t.ev("original_unchanged")
    t.check(d.n_qubits == n, "the conjugate has another register", got=d.n_qubits, expected=n)
    pre = prefix if prefix is not None else gen.scramble(rng, n)
    start = ref.run(pre, n)
    P = gen.build(Circuit, n, pre)
    defect = overlapping(ops, n)
    naive = [dagger_op(o) for o in reversed(ops)]

    def against(name, circ, want, ops_defect, phase=False):
        got = circ.run()
        eq = ref.same_up_to_phase if phase else ref.same
        if eq(got, want, 1e-8):
            t.ev(name)
            return
        if defect and ref.same_up_to_phase(got, ref.run(ops_defect, n, start), 1e-8) and t.known("C05-pairs"):
            t.ev("known_defect_hits")
            return
        t.fail(f"{name}: wrong result", circuit=gen.show(n0, ops), dagger=repr(d), start=start, got=got, expected=want)

    against("inverse_laws", P + c + d, start, ops + naive)
    against("inverse_laws", P + d + c, start, naive + ops)
    inv = np.conj(ref.unitary(ops, n).T) @ start
    against("reference_inverse", P + d, inv, naive, phase=any(ref.canon(o[0]) == "cu1" for o in ops))
    dd = d.dagger()
    against("double_dagger", P + dd, ref.run(ops, n, start), [dagger_op(o) for o in reversed(naive)], phase=any(ref.canon(o[0]) == "cu1" for o in ops))


class _Turn(OneQubitGate):
    """A user's gate (an X rotation) whose conjugate is of another class, which is not registered."""
    lowername = "vf_turn"

    def __init__(self, targets, theta, **kwargs):
        super().__init__(targets, (theta,), **kwargs)
        self.theta = theta

    def fallback(self, n_qubits):
        return [RXGate(q, self.theta) for q in self.target_iter(n_qubits)]

    def dagger(self):
        return _Back(self.targets, self.theta, **self.kwargs)


class _Back(_Turn):
    lowername = "vf_back"

    def fallback(self, n_qubits):
        return [RXGate(q, -self.theta) for q in self.target_iter(n_qubits)]

    def dagger(self):
        return _Turn(self.targets, self.theta, **self.kwargs)


class _Plain(_Turn):
    """A user's gate that has no conjugate."""
    lowername = "vf_plain"

    def dagger(self):
        return OneQubitGate.dagger(self)


def custom(t):
    """Circuits with gates that a user has registered."""
    rng = t.rng
    n0, ops, n = gen.program(rng, nmax=3, maxops=6)
    if not n or overlapping(ops, n):
        return
    BlueqatGlobalSetting.register_gate("vf_turn", _Turn, allow_overwrite=True)
    BlueqatGlobalSetting.register_gate("vf_plain", _Plain, allow_overwrite=True)
    try:
        full = list(ops)
        for _ in range(rng.randint(1, 3)):
            full.insert(rng.randrange(len(full) + 1), ("vf_turn", (gen.angle(rng),), rng.randrange(n)))
        plain = rng.random() < .4
        if plain:
            full.insert(rng.randrange(len(full) + 1), ("vf_plain", (.3,), rng.randrange(n)))
        meas = rng.random() < .4
        if meas:
            full.insert(rng.randrange(len(full) + 1), ("m", (), 0))
        c = Circuit(n)
        for name, ps, tg in full:
            g = getattr(c, name)
            (g(*ps) if ps else g)[tg]
        before = snapshot(c)
        kw = dict(ignore_measurement=True) if meas or rng.random() < .3 else {}
        t.sample = repr(c)
        if plain:
            try:
                d = c.dagger(**kw)
            except Exception:
                t.ev("no_conjugate_refused")
            else:
                t.fail("a circuit with a gate that has no conjugate was conjugated", circuit=repr(c), got=repr(d))
        else:
            d = c.dagger(**kw)
            known = [("rx" if o[0] == "vf_turn" else o[0],) + tuple(o[1:]) for o in full if o[0] != "m"]
            pre = gen.scramble(rng, n)
            start = ref.run(pre, n)
            want = np.conj(ref.unitary(known, n).T) @ start
            got = (gen.build(Circuit, n, pre) + d).run()
            t.check(ref.same_up_to_phase(got, want, 1e-8), "a circuit with user-defined gates is not inverted", circuit=repr(c), dagger=repr(d), got=got, expected=want)
            got = (gen.build(Circuit, n, pre) + d.dagger()).run()
            t.check(ref.same_up_to_phase(got, ref.run(known, n, start), 1e-8), "conjugated twice, a circuit with user-defined gates acts otherwise", circuit=repr(c))
            t.ev("custom_gates")
        t.check(snapshot(c) == before, "conjugating changed the circuit", circuit=repr(c))
        t.key("custom", gen.structure(full))
    finally:
        BlueqatGlobalSetting.unregister_gate("vf_turn")
        BlueqatGlobalSetting.unregister_gate("vf_plain")


def case(t, kind):
    rng = t.rng
    if kind == "custom":
        return custom(t)
    if kind == "each":
        name = NAMES[t.idx % len(NAMES)]
        a = ref.arity(name)
        n = a + rng.randint(0, 1)
        ps = gen.gen_params(rng, name)
        qs = tuple(rng.sample(range(n), a))
        ops = [(name, ps, qs[0] if a == 1 else qs)]
        for b in range(2 ** n):
            judge(t, n, ops, n, prefix=[("x", (), q) for q in range(n) if b >> q & 1])
            t.ev("basis_states")
        judge(t, n, ops, n)
        t.key("each", name, tuple(round(float(p), 1) for p in ps), qs)
        t.sample = gen.show(n, ops)
        return
    n0, ops, n = gen.program(rng, nmax=5 if kind == "rand" else 3, maxops=rng.choice([2, 6, 20]))
    if not n:
        return
    if rng.random() < .4:
        ops = echoes(rng, ops)
        t.ev("echoes")
    t.sample = gen.show(n0, ops)
    if kind == "rand":
        judge(t, n0, ops, n)
        t.key(n, gen.structure(ops))
        return
    full = list(ops)
    for _ in range(rng.randint(1, 3)):
        full.insert(rng.randrange(len(full) + 1), (rng.choice(["measure", "m", "reset"]), (), gen.gen_target(rng, "x", n, rich=False)))
    c = gen.build(Circuit, n, full, rng)
    before = snapshot(c)
    try:
        r = c.dagger()
    except ValueError:
        t.ev("refused")
    else:
        t.fail("dagger of a circuit with measurement or reset did not raise ValueError", circuit=gen.show(n, full), got=repr(r))
    t.check(snapshot(c) == before, "a refused dagger changed the circuit", circuit=gen.show(n, full))
    d = c.dagger(ignore_measurement=True)
    pre = gen.scramble(rng, n)
    start = ref.run(pre, n)
    got = (gen.build(Circuit, n, pre) + d).run()
    want = np.conj(ref.unitary(ops, n).T) @ start
    t.check(snapshot(c) == before and d.n_qubits == n, "dagger(ignore_measurement=True) changed a circuit or the register", circuit=gen.show(n, full))
    if not ref.same_up_to_phase(got, want, 1e-8):
        if not (overlapping(ops, n) and ref.same_up_to_phase(got, ref.run([dagger_op(o) for o in reversed(ops)], n, start)) and t.known("C05-pairs")):
            t.fail("dagger(ignore_measurement=True) is not the inverse of the gates", circuit=gen.show(n, full), got=got, expected=want)
    t.ev("ignored_measurement")
    t.key("meas", n, gen.structure(full))


def _probe():
    c = Circuit(3).x[0].h[1].t[2].cx[0:2, 1:3]
    return not ref.same((c + c.dagger()).run(), ref.zero_state(3))


PROBES = {"C05-pairs": _probe}
