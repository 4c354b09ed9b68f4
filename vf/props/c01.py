"""C01: statevector = product of textbook gates (differential monitor against vf/ref.py)."""
import itertools
import math

import numpy as np
from blueqat import Circuit

from .. import gen, ref

RULE = ("random programs over all unitary gates/aliases and index styles (<=7 qubits, plus wide ones to 11); every gate on every "
        "ordered choice of targets with several angle classes after an entangling prefix; non-trivial = at least one gate changes the "
        "reference state; distinct = structure with angles rounded to 0.1")
REQUIRED = ["statevectors_compared", "gate_applied"] + ["gate_" + g for g in ref.GATES if g != "ccz"]


def plan(tier):
    k = 10 if tier == "quick" else 60
    return [("each", len(EACH) * (1 if tier == "quick" else 10)), ("rand", 900 * k), ("long", 60 * k), ("wide", 24 * k)]


def _each():
    out = []
    for n in (1, 2, 3, 4):
        for name in gen.UNITARY:
            a = ref.arity(name)
            if a > n or (a < 3 and n == 4 and name not in ("cx", "cz", "h", "x", "u3", "crx", "cphase")):
                continue
            out.append((n, name))
    return out


EACH = _each()


def compare(t, n0, ops, n, c=None, rng=None):
    exact = not any(ref.canon(o[0]) == "cu1" for o in ops)
    want = ref.run(ops, n)
    if c is None:
        c = gen.build(Circuit, n0, ops, rng)
    got = c.run()
    t.ev("statevectors_compared")
    t.check(isinstance(got, np.ndarray) and got.shape == (2 ** n,), "statevector has a wrong type or length",
            circuit=gen.show(n0, ops), got=type(got), shape=getattr(got, "shape", None), expected_qubits=n)
    t.check(got.dtype == np.complex128, "statevector is not complex128", dtype=got.dtype)
    ok = ref.same(got, want, 1e-9) if exact else ref.same_up_to_phase(got, want, 1e-9)
    if not ok:
        t.fail("statevector differs from the product of the gate matrices", circuit=gen.show(n0, ops), got=got, expected=want,
               deviation=float(np.max(np.abs(got - want))))
    for o in ops:
        t.ev("gate_" + ref.canon(o[0]))
        t.ev("gate_applied")
    if np.max(np.abs(want - ref.zero_state(n))) > 1e-6:
        t.key(n, gen.structure(ops))
    return got


def case(t, kind):
    rng = t.rng
    if kind == "each":
        n, name = EACH[t.idx % len(EACH)]
        a = ref.arity(name)
        for qs in itertools.permutations(range(n), a):
            ops = gen.scramble(rng, n) if n > 1 else [("u3", (1.0, 0.4, -0.7), 0)]
            reps = 1 if ref.nparams(name) == 0 else 3
            for r in range(reps):
                ps = gen.gen_params(rng, name)
                tgt = qs[0] if a == 1 else qs
                if r == 0 or rng.random() < 0.5:
                    full = ops + [(name, ps, tgt)]
                else:      # twice in a row and followed by more, so that buffers are reused
                    full = ops + [(name, ps, tgt), ("h", (), rng.randrange(n)), (name, gen.gen_params(rng, name), tgt)]
                compare(t, n, full, n)
        t.sample = f"{name} on every ordered choice of {a} of {n} qubits"
        return
    if kind == "rand":
        n0, ops, n = gen.program(rng, nmax=rng.choice([1, 2, 2, 3, 3, 4, 5, 7]), maxops=rng.choice([3, 8, 25]))
    elif kind == "long":
        n0, ops, n = gen.program(rng, nmax=4, maxops=120, nmin=2)
    else:
        n = rng.randint(8, 11)
        ops = gen.gen_ops(rng, n, 14)
        n0 = rng.choice([0, n])
        pre = [("h", (), slice(0, n))] if rng.random() < 0.5 else [("ry", (0.7,), slice(None, n, 2))]
        ops, n = gen.make_valid(pre + ops + gen.gen_ops(rng, n, 6, ["rx", "u3", "cx", "ccx", "crz"]), n0)
    t.sample = gen.show(n0, ops)
    compare(t, n0, ops, n, rng=rng)
