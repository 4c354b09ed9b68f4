"""Judging runs with measurement and reset against exact branch enumeration."""
import numpy as np
from blueqat import Circuit

from . import gen, ref


def key(rec):
    return "".join(map(str, rec))


def gen_meas_program(rng, nmax=4, maxops=14, p=0.3, weights=(3, 2), max_meas=9):
    """Program with measurement (weights[0]) and reset (weights[1]) anywhere; bounded number of branch points."""
    n = rng.randint(1, nmax)
    if rng.random() < .02:           # a long one: many gates, few measurements
        maxops, p, max_meas = rng.randint(40, 110), .06, 4
    ops = gen.scramble(rng, n) if rng.random() < .6 else []
    points = 0
    for _ in range(rng.randint(1, maxops) if maxops < 40 else maxops):
        if rng.random() < p and points < max_meas:
            name = rng.choices(["measure", "m", "reset"], [weights[0], weights[0], 2 * weights[1]])[0]
            t = gen.gen_target(rng, "x", n, rich=rng.random() < .5)
            k = len(ref.resolve("x", t, n) or ())
            if points + k > max_meas + 3:
                continue
            points += k
            ops.append((name, (), t))
        else:
            name = rng.choice(gen.UNITARY)
            t = gen.gen_target(rng, name, n, rich=rng.random() < .3)
            if t is not None:
                ops.append((name, gen.gen_params(rng, name), t))
    n0 = rng.choice([0, n])
    return (n0,) + gen.make_valid(ops, n0)


def match_branches(vec, brs, exact):
    eq = ref.same if exact else ref.same_up_to_phase
    return [b for b in brs if eq(vec, b[2], 1e-6)]


def judge_support(t, n0, ops, n, shots, rng, c=None):
    """statevector_and_shots: counter in the support, sum, post-state of a counted shot."""
    c = c or gen.build(Circuit, n0, ops, rng)
    brs = ref.branches(ops, n)
    exact = not any(ref.canon(o[0]) == "cu1" for o in ops)
    sup = {key(b[1]) for b in brs}
    vec, cnt = c.run(shots=shots, returns="statevector_and_shots")
    t.check(sum(cnt.values()) == shots, "counts do not sum to the shots", circuit=gen.show(n0, ops), got=cnt, shots=shots)
    for k in cnt:
        t.check(isinstance(k, str) and len(k) == n, "outcome is not a string with one character per qubit", got=repr(k), n=n)
        t.check(k in sup, "an outcome of zero probability occurred", circuit=gen.show(n0, ops), got=dict(cnt), possible=sorted(sup))
    t.check(abs(np.linalg.norm(vec) - 1) < 1e-6, "post-measurement state is not normalised", circuit=gen.show(n0, ops), got=vec)
    good = match_branches(vec, brs, exact)
    t.check(bool(good), "the returned state is not a post-measurement state of this circuit", circuit=gen.show(n0, ops), got=vec)
    t.check(any(key(b[1]) in cnt for b in good), "the returned state belongs to no counted shot", circuit=gen.show(n0, ops), got=vec, counts=dict(cnt),
            outcomes=[key(b[1]) for b in good])
    t.ev("post_states_matched")
    t.ev("shots_in_support", shots)
    t.ev("branches_enumerated", len(brs))
    return brs, cnt


def judge_frequencies(t, n0, ops, n, shots, rng, c=None, split=1):
    c = c or gen.build(Circuit, n0, ops, rng)
    brs = ref.branches(ops, n)
    dist = {}
    for k, p in ref.record_dist(brs).items():
        dist[k] = p
    tot = {}
    for _ in range(split):
        cnt = c.run(shots=shots // split)
        t.check(sum(cnt.values()) == shots // split, "counts do not sum to the shots", got=cnt, shots=shots // split)
        for k, v in cnt.items():
            tot[k] = tot.get(k, 0) + v
    counts = {tuple(map(int, k)): v for k, v in tot.items()}
    bad = ref.dist_ok(counts, dist, (shots // split) * split)
    t.check(bad is None, "outcome frequencies are incompatible with the Born rule", circuit=gen.show(n0, ops), complaint=bad, counts=tot,
            probabilities={key(k): round(p, 6) for k, p in dist.items()})
    t.ev("frequency_tests")
    t.ev("shots_in_frequency_tests", shots)
    return dist


def judge_state_frequencies(t, n0, ops, n, runs, rng):
    """Final states of single runs: each is a branch state, with the branch's probability."""
    c = gen.build(Circuit, n0, ops, rng)
    exact = not any(ref.canon(o[0]) == "cu1" for o in ops)
    groups = []       # [probability, state] with equal states merged
    for p, _, v in ref.branches(ops, n):
        for g in groups:
            if (ref.same if exact else ref.same_up_to_phase)(g[1], v, 1e-6):
                g[0] += p
                break
        else:
            groups.append([p, v])
    counts = {}
    for _ in range(runs):
        vec = c.run()
        hit = [i for i, g in enumerate(groups) if (ref.same if exact else ref.same_up_to_phase)(vec, g[1], 3e-6)]
        t.check(bool(hit), "a run ended in a state this circuit cannot reach", circuit=gen.show(n0, ops), got=vec)
        counts[(hit[0],)] = counts.get((hit[0],), 0) + 1
    t.ev("final_states_checked", runs)
    if len(groups) > 1:
        for i, g in enumerate(groups):
            ok = ref.log_binom_tail_ok(counts.get((i,), 0), runs, min(1.0, g[0]), 1e-10)
            t.check(ok, "final states occur with wrong frequencies", circuit=gen.show(n0, ops), state=g[1], probability=g[0],
                    seen=counts.get((i,), 0), runs=runs)
        t.ev("state_frequency_tests")
