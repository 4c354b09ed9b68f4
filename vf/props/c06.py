"""C06: measurement (branch oracle, support, post-states, frequencies)."""
import numpy as np
from blueqat import Circuit

from .. import gen, measure, ref

RULE = ("random programs with measurements (and some resets) at any point, repeated and on slices; exact branch enumeration gives the possible records, their probabilities and the "
        "post-states; support and post-state exact per run, frequencies by Chernoff bounds at 1e-10 for every outcome, bit and pair parity; non-trivial = more than one branch; distinct = structure")
REQUIRED = ["post_states_matched", "shots_in_support", "frequency_tests", "state_frequency_tests", "entangled_partner", "repeat_same", "wide_registers", "many_shots"]


def plan(tier):
    k = 1 if tier == "quick" else 20
    return [("support", 900 * k), ("freq", 220 * k), ("state", 50 * k), ("pairs", 150 * k), ("big", 16 * k), ("wide", 30 * k), ("many", 3 * k)]


def case(t, kind):
    rng = t.rng
    if kind == "pairs":
        # measuring twice, and partners of an entangled state
        n = rng.randint(2, 4)
        ops = gen.scramble(rng, n)
        a, b = rng.sample(range(n), 2)
        if rng.random() < .5:
            ops = [("ry", (rng.uniform(.3, 2.8),), a), ("cx", (), (a, b))]
            ops += [("measure", (), a), ("measure", (), b)]
            tag = "entangled_partner"
            chk = lambda k: k[a] == k[b]
        else:
            ops += [("measure", (), a), ("measure", (), a)]
            c = rng.choice([q for q in range(n) if q != a])
            ops += [("cx", (), (a, c)), ("measure", (), c), ("cx", (), (a, c)), ("m", (), (a, a, c))]
            tag = "repeat_same"
            chk = lambda k: True
        brs, cnt = measure.judge_support(t, n, ops, n, 20, rng)
        t.check(all(chk(k) for k in cnt), "entangled partners disagree", circuit=gen.show(n, ops), counts=dict(cnt))
        t.ev(tag)
        t.key(tag, gen.structure(ops))
        t.sample = gen.show(n, ops)
        return
    if kind == "wide":
        # registers of more than ten qubits, few of them excited
        n = rng.randint(9, 14)
        ops = [("x", (), q) for q in range(n) if rng.random() < rng.choice([.05, .3, .8])]
        hot = rng.sample(range(n), rng.randint(0, 2))
        ops += [("ry", (rng.uniform(.5, 2.6),), q) for q in hot]
        ops += [("cx", (), (q, rng.choice([p for p in range(n) if p != q]))) for q in hot]
        ops += [("measure", (), rng.choice([slice(None), slice(None), slice(None, None, -1), slice(n // 2, None), rng.randrange(n)]))]
        measure.judge_support(t, n, ops, n, rng.randint(1, 4), rng)
        t.ev("wide_registers")
        t.key("wide", gen.structure(ops), n)
        t.sample = gen.show(n, ops)
        return
    if kind == "many":
        # thousands of shots spread over many outcomes: each shot is drawn by itself, so that coincidences are chance
        n = 12
        shots = rng.choice([6500, 8500, 10000]) if t.idx % 3 else rng.randint(1500, 3000)
        ops = [("h", (), slice(0, n))] + [("cz", (), tuple(rng.sample(range(n), 2))), ("rz", (gen.angle(rng),), rng.randrange(n))] + [("measure", (), slice(None))]
        cnt = gen.build(Circuit, n, ops, rng).run(shots=shots)
        t.check(sum(cnt.values()) == shots and all(len(k) == n and set(k) <= {"0", "1"} for k in cnt), "counts do not sum to the shots", shots=shots, got=sum(cnt.values()))
        pairs, p = shots * (shots - 1) / 2, 2.0 ** -n
        same = sum(v * (v - 1) // 2 for v in cnt.values())
        z = (same - pairs * p) / (pairs * p * (1 - p)) ** .5
        t.check(abs(z) < 8, "equal outcomes occur more or less often than independent shots allow", circuit=gen.show(n, ops), shots=shots, equal_pairs=same, expected=pairs * p, z=z)
        for q in range(n):
            ones = sum(v for k, v in cnt.items() if k[q] == "1")
            t.check(ref.log_binom_tail_ok(ones, shots, .5, 1e-11), "a bit of many shots is biased", qubit=q, ones=ones, shots=shots)
        t.ev("many_shots")
        t.key("many", n, shots)
        t.sample = f"{shots} shots on {n} qubits"
        return
    if kind == "big":
        n = rng.randint(1, 2)
        rare = [.15, .2, .3, .45, np.pi - .15, np.pi - .2, np.pi - .3, np.pi - .45]
        ops = [("ry", (rare[t.idx // 2 % 8] if t.idx % 2 else rng.uniform(.1, 3),), 0)] + ([("cx", (), (0, 1)), ("ry", (rng.uniform(.2, 2.9),), 1)] if n == 2 else [])
        ops += [("measure", (), slice(None))]
        measure.judge_frequencies(t, n, ops, n, 16000, rng)
        t.key("big", gen.structure(ops))
        t.sample = gen.show(n, ops)
        return
    n0, ops, n = measure.gen_meas_program(rng, p=0.35, weights=(4, 1))
    if not n:
        return
    t.sample = gen.show(n0, ops)
    if kind == "support":
        brs, _ = measure.judge_support(t, n0, ops, n, rng.choice([1, 1, 2, 5, 12]), rng)
    elif kind == "freq":
        if rng.random() < .7:
            ops = ops + [("measure", (), rng.choice([slice(None), slice(None, None, -1), tuple(range(n))]))]
        brs = measure.judge_frequencies(t, n0, ops, n, rng.choice([400, 900]), rng, split=rng.choice([1, 1, 3]))
    else:
        measure.judge_state_frequencies(t, n0, ops, n, 80, rng)
        brs = [1, 2]
    if len(brs) > 1:
        t.key(kind, n, gen.structure(ops))
