"""W02: simulated annealing: true energies, local minima, Boltzmann distribution at a fixed temperature."""
import contextlib
import io
import math

import numpy as np
from blueqat import wq

from .. import qubo as Q, ref

RULE = ("random QUBO problems annealed with default and other schedules, both samplers, one or several shots, verbose or not: every listed final energy is the energy of the listed bits and every energy in the history belongs to some "
        "assignment, answers are local minima, gapped problems end in the optimum in most shots; single-temperature runs follow the Boltzmann distribution; distinct = matrix and schedule")
REQUIRED = ["answers", "energies", "history", "one_shot", "many_shots", "fast", "sa", "local_minima", "optimum_batches", "boltzmann", "verbose", "qubo_unchanged", "default_schedule", "reused", "changed_in_place", "target_temperature", "boltzmann_fast", "boltzmann_sharp", "ising_given", "large"]
ASSUMES = ["a local-minimum miss by 1.0 or more has probability below 1e-14 at the final temperature", "a run of 120 and more moves on up to 3 bits has forgotten its start"]


def plan(tier):
    k = 2 if tier == "quick" else 20
    return [("answers", 120 * k), ("default", 4 * k), ("optimum", 8 * k), ("boltzmann", 24 * k), ("ising", 20 * k), ("large", 5 * k), ("verbose", 8 * k)]


def judge(t, o, q, shots, res, local=True, energy=None):
    n = len(q)
    if shots == 1:
        t.check(isinstance(res, list) and len(res) == n and not any(isinstance(x, list) for x in res), "one shot does not give one list of bits", got=repr(res))
        t.check(len(o.E) > 0 and not any(isinstance(x, (list, np.ndarray)) for x in o.E), "one shot does not give one list of energies", got=repr(o.E)[:200])
        pairs = [(res, o.E)]
        t.ev("one_shot")
    else:
        t.check(isinstance(res, list) and len(res) == shots and len(o.E) == shots, "several shots do not give one answer and one energy list each", got=repr(res), energies=len(o.E), shots=shots)
        pairs = list(zip(res, o.E))
        t.ev("many_shots")
    tol = 1e-9 * Q.scale(q)
    energy = energy or (lambda b: Q.energy(q, b))
    levels = np.array([energy(b) for b in Q.assignments(n)])
    for bits, es in pairs:
        t.check(len(bits) == n and all(b in (0, 1) and isinstance(b, (int, np.integer)) for b in bits), "an answer is no list of bits", got=repr(bits))
        want = energy(bits)
        t.check(abs(es[-1] - want) <= tol, "the reported final energy is not the QUBO energy of the answer", qubo=Q.show(q), bits=bits, got=es[-1], expected=want)
        t.ev("energies")
        for e in es:
            t.check(float(np.min(np.abs(levels - e))) <= tol, "a reported energy belongs to no assignment", qubo=Q.show(q), got=e)
            t.ev("history")
        if local:
            for i in range(n):
                flip = list(bits)
                flip[i] ^= 1
                t.check(energy(flip) > want - 1.0, "the answer is no local minimum: flipping one bit lowers the energy", qubo=Q.show(q), bits=bits, bit=i, energy=want, lower=energy(flip))
            t.ev("local_minima")
        t.ev("answers")
    return [b for b, _ in pairs]


def gapped(rng, n):
    for _ in range(300):
        q = Q.gen_qubo(rng, n, "int")
        es = sorted((Q.energy(q, b), b) for b in Q.assignments(n))
        if len(es) > 1 and es[1][0] - es[0][0] >= 2:
            return q, es[0][1]
    return None


def case(t, kind):
    rng = t.rng
    o = wq.Opt()
    if kind == "boltzmann":
        n = rng.choice([1, 2, 2, 3])
        q = Q.gen_qubo(rng, n, "float")
        temp = rng.choice([1.0, 2.5, 4.0])
        e = np.array([Q.energy(q, b) for b in Q.assignments(n)])
        w = np.exp(-(e - e.min()) / temp)
        if (e.max() - e.min()) / temp > 5:
            return
        sharp = t.idx % 12 == 0            # one bit, or two coupled ones, many shots: the energy scale of a move
        if sharp:
            a, n, temp = rng.choice([-1, 1]) * rng.uniform(1.8, 2.4), rng.choice([1, 2]), rng.choice([1.0, 2.5])
            q = [[a * temp]] if n == 1 else [[-2 * a * temp, 4 * a * temp], [0.0, -2 * a * temp]]
            e = np.array([Q.energy(q, b) for b in Q.assignments(n)])
            w = np.exp(-(e - e.min()) / temp)
        dist = dict(zip(Q.assignments(n), w / w.sum()))
        shots = 250
        o.qubo = q
        mode = "one" if sharp else rng.choice(["one", "target", "target", "fast"])
        if mode == "one":                  # the only temperature
            o.Ts, o.R, o.ite = temp, .001, 150
            if sharp:
                shots, o.ite = 2500, 25 * n
                t.ev("boltzmann_sharp")
            res = o.run(shots=shots)
        elif mode == "target":             # the last one above the target
            o.R, o.ite = rng.choice([.5, .3]), 150
            o.Ts = temp / o.R ** rng.choice([0, 1, 2])
            last = o.Ts
            target = temp * rng.choice([.9, .7])
            while last * o.R > target:
                last *= o.R
            if abs(last - temp) > 1e-9 * temp:
                return
            res = o.run(shots=shots, targetT=target) if rng.random() < .5 else o.run(shots, "normal", target)
            t.ev("target_temperature")
        else:                              # the short schedule: 100 moves at each temperature
            if n > 2:
                return
            o.Ts = temp
            res = o.run(shots=shots, sampler="fast", targetT=.8 * temp)
            t.ev("boltzmann_fast")
        counts = {}
        for b in res:
            counts[tuple(b)] = counts.get(tuple(b), 0) + 1
        bad = ref.dist_ok(counts, dist, shots, 1e-11)
        t.check(bad is None, "answers at a fixed temperature do not follow the Boltzmann distribution", complaint=bad, qubo=Q.show(q), temperature=temp, counts=counts, expected=dist)
        judge(t, o, q, shots, res, local=False)
        t.ev("boltzmann")
        t.key("boltzmann", Q.show(q), temp)
        t.sample = f"{Q.show(q)} at T={temp}"
        return
    if kind == "large":       # many bits, several shots
        n = rng.choice([12, 20, 33, 48])
        q = Q.gen_qubo(rng, n)
        f = np.array(Q.frozen(q))
        o.qubo = q
        o.Ts, o.R, o.ite = (.5, .25, 40 * n) if rng.random() < .5 else (2, .1, n)
        shots = rng.choice([1, 3, 40]) if o.ite <= n else rng.choice([1, 3])
        res = o.run(shots=shots)
        pairs = [(res, o.E)] if shots == 1 else list(zip(res, o.E))
        t.check(len(pairs) == shots and len(o.E if shots > 1 else [0]) == shots, "several shots do not give one answer and one energy list each", answers=len(pairs), energies=len(o.E), shots=shots)
        tol = 1e-9 * Q.scale(q)
        for bits, es in pairs:
            t.check(len(bits) == n and all(b in (0, 1) and isinstance(b, (int, np.integer)) for b in bits), "an answer is no list of bits", got=repr(bits))
            x = np.array(bits, dtype=float)
            want = float(x @ f @ x)
            t.check(abs(es[-1] - want) <= tol, "the reported final energy is not the QUBO energy of the answer", qubo=Q.show(q), bits=bits, got=es[-1], expected=want)
            t.ev("energies")
            t.ev("answers")
            if o.ite > n and Q.scale(q) < 2000:
                for i in range(n):
                    y = x.copy()
                    y[i] = 1 - y[i]
                    low = float(y @ f @ y)
                    t.check(low > want - 1.0, "the answer is no local minimum: flipping one bit lowers the energy", bits=bits, bit=i, energy=want, lower=low)
                t.ev("local_minima")
        t.check(len({tuple(b) for b, _ in pairs}) > 1 or shots < 40, "all answers of many short runs are equal", got=pairs[0][0])
        t.check(np.array_equal(Q.frozen(o.qubo), f), "annealing modified the QUBO", before=Q.show(f), after=Q.show(o.qubo))
        t.ev("large")
        t.key("large", Q.show(q), shots)
        t.sample = f"{n} bits, {shots} shots"
        return
    if kind == "ising":       # the Ising form set by the user
        n = rng.choice([1, 2, 3, 5])
        j = [[rng.choice([0, 1, -1, 2.5, rng.uniform(-3, 3)]) if a <= b else 0 for b in range(n)] for a in range(n)]
        o.J = rng.choice([list, np.array])(j)
        s = lambda b: [2 * x - 1 for x in b]
        e = lambda b: sum(j[a][a] * s(b)[a] for a in range(n)) + sum(j[a][c] * s(b)[a] * s(b)[c] for a in range(n) for c in range(a + 1, n))
        o.Ts, o.R, o.ite = 2, .35, 80 * n
        shots = rng.choice([1, 3])
        judge(t, o, j, shots, o.run(shots=shots), True, e)
        t.check(np.allclose(o.J, j), "annealing modified the Ising form it was given", before=j, after=o.J)
        t.ev("ising_given")
        t.key("ising", repr(j))
        t.sample = f"J = {Q.show(j)}"
        return
    if kind == "optimum":
        hits = shots = 0
        for _ in range(8):
            n = rng.choice([2, 3, 4])
            g = gapped(rng, n)
            if g is None:
                continue
            q, best = g
            o = wq.Opt()
            o.qubo, o.ite, o.R = q, 40, .8
            res = judge(t, o, q, 4, o.run(shots=4), local=False)
            hits += sum(tuple(b) == best for b in res)
            shots += 4
        t.check(hits >= .5 * shots, "gapped problems do not end in the optimum in most shots", hits=hits, shots=shots)
        t.ev("optimum_batches")
        t.key("optimum", t.idx)
        t.sample = f"{hits} of {shots} optimal"
        return
    if kind == "default":
        n = rng.choice([2, 3])
        q, best = gapped(rng, n) or ([[-1]], (1,))
        o.qubo = q
        res = o.run() if rng.random() < .5 else o.sa()
        judge(t, o, q, 1, res)
        t.ev("default_schedule")
        t.key("default", Q.show(q))
        t.sample = Q.show(q)
        return
    n = rng.choice([1, 2, 3, 4, 6])
    q = Q.gen_qubo(rng, n)
    before = Q.frozen(q)
    o.qubo = q
    if kind == "verbose":
        o.ite, o.R = 5, .5
        shots = rng.choice([1, 3])
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            res = o.run(shots=shots, verbose=True)
        judge(t, o, q, shots, res, local=False)
        ans = res if shots > 1 else [res]
        t.check(all(str(list(b)) in out.getvalue() for b in ans), "verbose does not print the answers", printed=out.getvalue(), answers=ans)
        t.ev("verbose")
        t.key("verbose", Q.show(q), shots)
        t.sample = Q.show(q)
        return
    shots = rng.choice([1, 1, 2, 5])
    r = rng.random()
    if r < .25 and n <= 3:
        res = o.run(shots, "fast") if rng.random() < .5 else o.sa(shots=shots, sampler="fast")
        local = False          # few moves only
        t.ev("fast")
    elif r < .5:
        o.ite, o.R = 12 * n, .6
        res = o.sa(shots) if shots > 1 or rng.random() < .5 else o.sa()
        local = False
        t.ev("sa")
    elif r < .75:
        o.Ts, o.R, o.ite = rng.choice([(.5, .25, 60 * n), (8, .25, 60 * n), (2, .35, 80 * n)])     # the last sweep is at T < 0.032
        res = o.run(shots=shots)
        local = Q.scale(q) < 500
    else:
        tt = rng.choice([.5, .1, .01, 10])
        o.ite, o.R = 5, .5
        res = o.run(shots, "normal", tt) if rng.random() < .5 else o.run(shots=shots, targetT=tt)
        local = False
    judge(t, o, q, shots, res, local)
    t.check(Q.frozen(q) == before and Q.frozen(o.qubo) == before, "annealing modified the QUBO", before=before, after=Q.frozen(o.qubo))
    t.ev("qubo_unchanged")
    if rng.random() < .4 and isinstance(q, (list, np.ndarray)):       # the same matrix with other entries
        for _ in range(rng.randint(1, 3)):
            a, b = rng.randrange(n), rng.randrange(n)
            v = rng.choice([7, -6, 3])
            o.qubo[a][b] = v
        now = Q.frozen(o.qubo)
        o.ite, o.R = 5, .5
        judge(t, o, now, 2, o.run(shots=2), False)
        judge(t, o, now, 1, o.sa(), False)
        t.ev("changed_in_place")
    if rng.random() < .3:       # the same optimizer again, with another problem
        o.qubo = q = Q.gen_qubo(rng, rng.choice([1, 2, 4]))
        o.ite, o.R = 5, .5
        judge(t, o, q, 2, o.run(shots=2), False)
        judge(t, o, q, 1, o.run(), False)
        t.ev("reused")
    t.key(Q.show(q), shots, o.ite, o.R)
    t.sample = Q.show(q)
