"""W03: path-integral annealing and the D-Wave path, through spins, energies and a stand-in solver."""
import math
import sys
import types

import numpy as np
from blueqat import wq

from .. import qubo as Q, ref

RULE = ("sqa() on random QUBO problems and schedules: spins, the energy of every sweep (all of them when no move is made, the last one otherwise), the equilibrium distribution of all slices at one field strength, optimality on gapped "
        "problems; dw() through a stand-in client with random working graphs: what is submitted, decoded answers, configuration; distinct = matrix and parameters")
REQUIRED = ["spins", "frozen_energies", "last_energy", "equilibrium", "slice_rings", "strong_couplings", "optimum_batches", "dw_submitted", "dw_missing_nodes", "dw_missing_edges", "dw_answers", "dw_config", "dw_ising_given", "field_steps", "ising_given", "changed_in_place", "dw_unavailable", "qubo_unchanged", "large", "dw_large"]
ASSUMES = ["the D-Wave client's interface: nodes, undirected_edges (sorted pairs), sample_ising, samples", "150 and more moves at temperature 1 on up to 6 spins have forgotten their start"]


def plan(tier):
    k = 2 if tier == "quick" else 20
    return [("sweeps", 60 * k), ("equilibrium", 28 * k), ("optimum", 8 * k), ("dw", 150 * k), ("nodw", 2)]


def ising_energy(j, s):
    n = len(s)
    return float(sum(float(j[a][a]) * s[a] for a in range(n)) + sum(float(j[a][b]) * s[a] * s[b] for a in range(n) for b in range(a + 1, n)))


def gen_ising(rng, n):
    return [[rng.choice([0, 1, -1, 2.5, rng.uniform(-3, 3)]) if a <= b else 0.0 for b in range(n)] for a in range(n)]


def mean_energy(q, spins):
    x = (np.asarray(spins, dtype=float) + 1) / 2
    return float(((x @ np.array([[float(v) for v in r] for r in q])) * x).sum()) / len(x)


def coupling(spins, g, temp):
    p = len(spins)
    s = sum(float(np.dot(spins[i], spins[(i + 1) % p])) for i in range(p))
    return temp / 2 * math.log(1 / math.tanh(g / temp / p)) * s


def fields(o):
    out, g = [], o.Gs
    while g > o.Gf:
        out.append(g)
        g *= o.R
    return out


class Solver:
    def __init__(self, rng, n):
        total = n + rng.choice([0, 2, 5])
        self.nodes = {i for i in range(total) if rng.random() < .85}
        pairs = [(i, j) for i in self.nodes for j in self.nodes if i < j and rng.random() < .8]
        rng.shuffle(pairs)
        self.undirected_edges = set(pairs)
        self.calls = []
        self.answer = [rng.choice([-1, 1]) if i in self.nodes else 3 for i in range(total + rng.choice([0, 3]))]

    def sample_ising(self, linear, quadratic, **kw):
        self.calls.append((dict(linear) if isinstance(linear, dict) else dict(enumerate(linear)), dict(quadratic), kw))
        return types.SimpleNamespace(samples=[list(self.answer)], energies=[0.0], result=lambda *a: None)


def with_client(solver, log, f):
    """Runs f while dwave.cloud is a stand-in that hands out the solver."""
    class Client:
        @classmethod
        def from_config(cls, *a, **kw):
            log.append((a, kw))
            return cls()

        def get_solver(self, *a, **kw):
            return solver

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    keep = {k: sys.modules.get(k) for k in ("dwave", "dwave.cloud")}
    pkg, cloud = types.ModuleType("dwave"), types.ModuleType("dwave.cloud")
    pkg.__path__ = []
    cloud.Client = Client
    pkg.cloud = cloud
    sys.modules.update({"dwave": pkg, "dwave.cloud": cloud})
    try:
        return f()
    finally:
        for k, v in keep.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def case(t, kind):
    rng = t.rng
    o = wq.Opt()
    if kind == "nodw":
        keep = {k: sys.modules.get(k) for k in ("dwave", "dwave.cloud")}
        sys.modules.update({"dwave": None, "dwave.cloud": None})
        try:
            o.qubo = [[1.0]]
            o.dw()
        except ImportError:
            t.ev("dw_unavailable")
        else:
            t.fail("dw() without the client did not raise ImportError")
        finally:
            for k, v in keep.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
        return
    if kind == "dw":
        n = rng.choice([1, 2, 3, 4, 6])
        if rng.random() < .08:
            n = rng.choice([12, 30, 70])
            t.ev("dw_large")
        q = Q.gen_qubo(rng, n)
        before = Q.frozen(q)
        tol = 1e-9 * Q.scale(q)
        given = rng.random() < .2
        if given:          # the Ising form itself
            j = gen_ising(rng, n)
            o.J = np.array(j)
            t.ev("dw_ising_given")
        else:
            o.qubo = q
        o.dwaveendpoint, o.dwavetoken, o.dwavesolver = rng.choice([("http://e", "tok", "S1"), ("https://x/sapi", "", "DW_2000Q_6")])
        s = Solver(rng, n)
        if rng.random() < .2:
            s.nodes = sorted(s.nodes)
            s.undirected_edges = sorted(s.undirected_edges)
        log = []
        got = with_client(s, log, o.dw)
        info = dict(qubo=Q.show(q), nodes=sorted(s.nodes), edges=sorted(s.undirected_edges))
        t.check(len(s.calls) == 1, "the problem was not submitted once", calls=len(s.calls), **info)
        linear, quad, kw = s.calls[0]
        want_h = {i: before[i][i] / 2 + sum((before[i][j] + before[j][i]) / 4 for j in range(n) if j != i) for i in s.nodes if i < n}
        want_j = {e: (before[e[0]][e[1]] + before[e[1]][e[0]]) / 4 for e in s.undirected_edges if max(e) < n}
        if given:
            want_h = {i: j[i][i] for i in s.nodes if i < n}
            want_j = {e: j[e[0]][e[1]] for e in s.undirected_edges if max(e) < n}
            info["ising"] = j
        t.check(set(linear) == set(want_h), "the biases are not given for exactly the problem's available nodes", got=sorted(linear), expected=sorted(want_h), **info)
        t.check(all(abs(linear[i] - v) <= tol for i, v in want_h.items()), "a wrong bias was submitted", got=linear, expected=want_h, **info)
        t.check(set(quad) == set(want_j), "the couplings are not given for exactly the problem's available edges", got=sorted(quad), expected=sorted(want_j), **info)
        t.check(all(abs(quad[e] - v) <= tol for e, v in want_j.items()), "a wrong coupling was submitted", got=quad, expected=want_j, **info)
        t.ev("dw_submitted")
        if any(i not in s.nodes for i in range(n)):
            t.ev("dw_missing_nodes")
        if len(want_j) < n * (n - 1) / 2:
            t.ev("dw_missing_edges")
        t.check(isinstance(got, list) and len(got) == n and all(got[i] == (s.answer[i] + 1) // 2 for i in s.nodes if i < n), "the answer is not decoded to the bits of the problem's qubits", got=got, sample=s.answer, **info)
        t.ev("dw_answers")
        (a, kwargs), = log
        t.check(o.dwaveendpoint in list(a) + list(kwargs.values()) and o.dwavetoken in list(a) + list(kwargs.values()) and o.dwavesolver in list(a) + list(kwargs.values()), "the configuration is not passed to the client", got=(a, kwargs))
        t.ev("dw_config")
        t.check(Q.frozen(q) == before, "dw() modified the QUBO", before=before, after=Q.frozen(q))
        t.ev("qubo_unchanged")
        t.key("dw", Q.show(q), tuple(sorted(s.nodes)))
        t.sample = Q.show(q)
        return
    if kind == "equilibrium":
        n, p = rng.choice([(1, 2), (1, 3), (2, 2), (2, 3), (1, 4), (2, 1), (1, 1)])
        ring = t.idx % 7 == 0       # the neighbours of each slice: more slices, more runs
        if ring:
            n, p = 1, rng.choice([3, 4, 5])
        pair = t.idx % 7 == 1       # strong couplings inside a slice
        if pair:
            n, p = rng.choice([(1, 1), (2, 1), (2, 2), (3, 1)])
        q = Q.gen_qubo(rng, n, "float", "list")
        q = [[x * (.6 if p > 1 else 1.2) for x in r] for r in q]
        if pair:
            q = [[rng.choice([-1, 1]) * rng.uniform(1.8, 2.4) if n == 1 else rng.uniform(-.5, .5) if a == b else rng.choice([-1, 1]) * rng.uniform(2, 4) if b == a + 1 else 0.0 for b in range(n)] for a in range(n)]
        temp, g = rng.choice([1.0, 1.5]), rng.choice([1.0, .6, 2.0])
        if ring or pair:
            temp, g = 1.0, 1.5
        states = list(__import__("itertools").product((-1, 1), repeat=n * p))
        es = []
        for s in states:
            m = np.array(s).reshape(p, n)
            es.append(mean_energy(q, m) - coupling(m, g, temp))
        es = np.array(es)
        if (es.max() - es.min()) / temp > 6:
            return
        w = np.exp(-(es - es.min()) / temp)
        dist = dict(zip(states, w / w.sum()))
        runs, counts = (1500 if ring or n == 1 and pair else 800 if pair else 300 if p > 1 else 600), {}
        r = rng.choice([.5, .2, .1])
        steps = rng.choice([0, 1, 1])      # the field reaches g at once or after a step from a stronger one
        o.qubo, o.Tf, o.Gs, o.Gf, o.R, o.tro, o.ite = q, temp, g / r ** steps, g * .9, r, p, 60 * n * p
        if steps:
            t.ev("field_steps")
        for _ in range(runs):
            s = tuple(int(x) for x in np.asarray(o.sqa()).reshape(-1))
            counts[s] = counts.get(s, 0) + 1
        bad = ref.dist_ok({tuple((x + 1) // 2 for x in k): v for k, v in counts.items()}, {tuple((x + 1) // 2 for x in k): v for k, v in dist.items()}, runs, 1e-11)
        t.check(bad is None, "the spins at a fixed field do not follow the path-integral distribution", complaint=bad, qubo=Q.show(q), temperature=temp, field=g, slices=p)
        t.ev("equilibrium")
        if ring:
            t.ev("slice_rings")
        if pair:
            t.ev("strong_couplings")
        t.key("equilibrium", Q.show(q), temp, g, p)
        t.sample = f"{Q.show(q)} T={temp} G={g} P={p}"
        return
    if kind == "optimum":
        hits = total = 0
        for _ in range(16):
            n = rng.choice([2, 3])
            for _ in range(300):
                q = Q.gen_qubo(rng, n, "int")
                es = sorted((Q.energy(q, b), b) for b in Q.assignments(n))
                if es[1][0] - es[0][0] >= 3:
                    break
            else:
                continue
            o = wq.Opt()
            o.qubo, o.ite, o.R, o.tro = q, 60, .7, 4
            s = np.asarray(o.sqa())
            hits += sum(tuple((int(x) + 1) // 2 for x in row) == es[0][1] for row in s)
            total += len(s)
        t.check(hits >= .35 * total, "gapped problems do not end in the optimum in most slices", hits=hits, slices=total)
        t.ev("optimum_batches")
        t.key("optimum", t.idx)
        t.sample = f"{hits} of {total} slices optimal"
        return
    n = rng.choice([1, 2, 3, 4])
    if rng.random() < .08:
        n = rng.choice([10, 20, 40])
        t.ev("large")
    q = Q.gen_qubo(rng, n)
    before = Q.frozen(q)
    given = rng.random() < .3
    if given:
        j = gen_ising(rng, n)
        o.J = rng.choice([np.array, list])(j)
    else:
        o.qubo = q
        if rng.random() < .4 and isinstance(q, (list, np.ndarray)):      # solved before with other entries
            o.ite, o.Gs, o.Gf = 1, 1.0, .9
            o.sqa()
            a, b = rng.randrange(n), rng.randrange(n)
            o.qubo[a][b] = rng.choice([6, -4])
            before = Q.frozen(o.qubo)
            o.E = []
            t.ev("changed_in_place")
    o.tro = rng.choice([1, 2, 3, 4, 8, 9, 12, 20, 40, 70])
    o.Tf = rng.choice([.02, .5, 1.0])
    o.Gs, o.Gf, o.R = rng.choice([(2.0, .3, .6), (1.0, .02, .5), (.8, .5, .9), (.1, .2, .5)])
    frozen = rng.random() < .5
    o.ite = 0 if frozen else rng.choice([1, 10, 40])
    s = np.asarray(o.sqa())
    t.check(s.shape == (o.tro, n) and set(np.unique(s)) <= {-1, 1}, "the result is not one configuration of +1/-1 spins per slice", got=s, slices=o.tro)
    t.ev("spins")
    gs = fields(o)
    t.check(len(o.E) == len(gs) + 1, "the energies are not the initial one and one per sweep", got=len(o.E), expected=len(gs) + 1)
    tol = 1e-9 * (Q.scale(before) + o.tro * n * 20 + 100)
    m = mean_energy(before, s)
    if given:
        m = sum(ising_energy(j, row) for row in s) / len(s)
        t.check(np.allclose(o.J, j), "annealing modified the Ising form it was given", before=j, after=o.J)
        t.ev("ising_given")
    gl = [o.Gs] + gs
    for k in (range(len(gl)) if frozen else [len(gl) - 1] if gs else []):
        want = m - coupling(s, gl[k], o.Tf)
        t.check(abs(o.E[k] - want) <= tol, "the reported energy is not the mean slice energy minus the transverse coupling", qubo=Q.show(q), sweep=k, got=o.E[k], expected=want, spins=s, field=gl[k], temperature=o.Tf)
        t.ev("frozen_energies" if frozen else "last_energy")
    if not given:
        t.check(Q.frozen(o.qubo) == before, "annealing modified the QUBO", before=before, after=Q.frozen(o.qubo))
        t.ev("qubo_unchanged")
    t.key("sweeps", Q.show(q), o.tro, o.Tf, o.Gs)
    t.sample = f"{Q.show(q)} tro={o.tro} Tf={o.Tf} G={o.Gs}..{o.Gf}"
