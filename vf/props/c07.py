"""C07: reset (branch oracle)."""
from .. import gen, measure, ref

RULE = ("reset-heavy random programs: reset of entangled, repeated, already measured qubits and slices, followed by gates and measurements; exact branch enumeration; support, post-states "
        "and frequencies as C06; non-trivial = a reset with more than one branch or after a measurement; distinct = structure")
REQUIRED = ["post_states_matched", "shots_in_support", "frequency_tests", "state_frequency_tests", "reset_gives_zero", "record_kept", "several_partners"]


def plan(tier):
    k = 1 if tier == "quick" else 20
    return [("support", 900 * k), ("freq", 200 * k), ("state", 60 * k), ("zero", 300 * k), ("record", 200 * k), ("partners", 60 * k)]


def case(t, kind):
    rng = t.rng
    if kind == "zero":
        n = rng.randint(1, 4)
        ops = gen.scramble(rng, n) + gen.gen_ops(rng, n, rng.randint(0, 4))
        tg = gen.gen_target(rng, "x", n)
        if ref.max_index(tg) >= n:
            tg = rng.randrange(n)
        ops += [("reset", (), tg)] * rng.choice([1, 1, 2])
        ops, n = gen.make_valid(ops, n)
        qs = {q for (q,) in ref.resolve("reset", tg, n)} if ops and ops[-1][0] == "reset" else set()
        from blueqat import Circuit
        c = gen.build(Circuit, n, ops)
        vec = c.run()
        for i, a in enumerate(vec):
            if abs(a) > 1e-9:
                t.check(not any(i >> q & 1 for q in qs), "a reset qubit is not in |0>", circuit=gen.show(n, ops), got=vec)
        t.ev("reset_gives_zero")
        measure.judge_support(t, n, ops, n, 3, rng)
        t.key("zero", gen.structure(ops))
        t.sample = gen.show(n, ops)
        return
    if kind == "record":
        # the measured value survives a reset; a gate after the reset acts on |0>
        n = rng.randint(1, 3)
        q = rng.randrange(n)
        ops = gen.scramble(rng, n) + [("measure", (), q), ("reset", (), q)]
        if rng.random() < .5:
            ops += [("x", (), q), ("m", (), q)]
        if rng.random() < .3:
            ops += [("reset", (), q), ("reset", (), q)]
        measure.judge_support(t, n, ops, n, 10, rng)
        t.ev("record_kept")
        t.key("record", gen.structure(ops))
        t.sample = gen.show(n, ops)
        return
    if kind == "partners":
        # several qubits reset (at once or in turn), each entangled with a partner of its own: the partners stay independent
        k = rng.choice([2, 2, 3])
        n = 2 * k
        qs = list(range(n)) if rng.random() < .5 else rng.sample(range(n), n)
        own, partner = qs[:k], qs[k:]
        if rng.random() < .3:
            own, partner = list(range(k)), list(range(k, n))
        ops = []
        for a, b in zip(own, partner):
            ops += [("ry", (rng.choice([1.0, 1.57, 2.0, rng.uniform(.6, 2.5)]),), a), ("cx", (), (a, b))]
        r = rng.random()
        if own == list(range(k)) and r < .6:
            ops += [("reset", (), rng.choice([slice(0, k), slice(k - 1, None, -1)]))]
        elif r < .8:
            ops += [("reset", (), tuple(own))]
        else:
            ops += [("reset", (), a) for a in own]
        ops += [("measure", (), rng.choice([slice(None), tuple(partner)]))]
        measure.judge_frequencies(t, n, ops, n, 600, rng)
        t.ev("several_partners")
        t.key("partners", gen.structure(ops))
        t.sample = gen.show(n, ops)
        return
    n0, ops, n = measure.gen_meas_program(rng, p=0.4, weights=(2, 4))
    if not n:
        return
    if not any(o[0] == "reset" for o in ops):
        ops = ops + [("reset", (), rng.randrange(n)), ("ry", (0.8,), rng.randrange(n))]
    t.sample = gen.show(n0, ops)
    if kind == "support":
        measure.judge_support(t, n0, ops, n, rng.choice([1, 1, 2, 5, 12]), rng)
    elif kind == "freq":
        ops = ops + [("measure", (), slice(None))]
        measure.judge_frequencies(t, n0, ops, n, rng.choice([400, 900]), rng)
    else:
        measure.judge_state_frequencies(t, n0, ops, n, 80, rng)
    t.key(kind, n, gen.structure(ops))
