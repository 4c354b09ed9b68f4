"""B07: translation to Qgate, recorded and simulated by a stand-in package."""
from collections import Counter

import numpy as np
from blueqat import Circuit

from .. import fakeqgate, gen, measure, ref

RULE = ("random circuits of the gates with a Qgate counterpart, slices and negative indices included; the operations received by the stand-in are compared one by one, its simulated state with the reference, and its (scripted or "
        "sampled) histograms with the returned counters; runtimes, preferences, sampling pools, return forms and repeated runs; distinct = structure")
REQUIRED = ["ops_compared", "states_compared", "scripted_histograms", "sampled_histograms", "blueqat_pool", "empty_lanes", "several_empty_lanes", "state_and_shot", "runtime_chosen", "refused", "adjoint_ops", "controlled_ops", "swaps", "second_run"]
ASSUMES = ["the stand-in's reading of the qgate calls (controlled U gates in Blueqat's convention)"]

# Blueqat gate -> (kind, number of controls, adjoint)
KIND = {"i": ("ID", 0, False), "x": ("X", 0, False), "y": ("Y", 0, False), "z": ("Z", 0, False), "h": ("H", 0, False), "t": ("T", 0, False), "s": ("S", 0, False), "tdg": ("T", 0, True), "sdg": ("S", 0, True),
        "cz": ("Z", 1, False), "cx": ("X", 1, False), "rx": ("RX", 0, False), "ry": ("RY", 0, False), "rz": ("RZ", 0, False), "phase": ("U1", 0, False), "crx": ("RX", 1, False), "cry": ("RY", 1, False), "crz": ("RZ", 1, False),
        "cphase": ("U1", 1, False), "u1": ("RZ", 0, False), "u2": ("U2", 0, False), "u3": ("U", 0, False), "cu1": ("U1", 1, False), "cu2": ("U2", 1, False), "cu3": ("U", 1, False), "swap": ("SWAP", 0, False), "ccx": ("X", 2, False)}
NAMES = sorted(KIND) + ["cnot", "toffoli", "r", "cr"]


def plan(tier):
    k = 6 if tier == "quick" else 25
    return [("gate", len(NAMES) * 8 * k), ("random", 500 * k), ("shots", 350 * k), ("pool", 120 * k), ("both", 150 * k), ("refuse", 60 * k)]


def prepare():
    fakeqgate.install()


def gen_ops(rng, n, count, names=NAMES, rich=True):
    return gen.gen_ops(rng, n, count, names, rich=rich)


def expected(ops, n):
    out = []
    for name, params, tg in ops:
        c = ref.canon(name)
        for qs in ref.resolve(name, tg, n):
            if c == "measure":
                out.append(("measure", qs[0]))
                continue
            kind, k, adj = KIND[c]
            out.append((kind, tuple(float(p) for p in params), frozenset(qs[:k]), qs[k:], adj))
    return out


def received(sim):
    at = {id(q): i for i, q in enumerate(sim.ordering)}
    out = []
    for op in sim.ops:
        if isinstance(op, fakeqgate.Measure):
            out.append(("measure", at[id(op.qreg)]))
        else:
            out.append((op.gt.name, op.gt.params, frozenset(at[id(q)] for q in op.ctrls), tuple(at[id(q)] for q in op.qregs), op.adjoint))
    return out


SHARED = []


def run(c, rng, **kw):
    r = rng.random()
    if r < .3:          # one backend for many circuits of different sizes
        if not SHARED:
            from blueqat.backends.qgate_backend import QgateBackend
            SHARED.append(QgateBackend())
        return c.run(backend=SHARED[0], **kw)
    return c.run_with_qgate(**kw) if r < .6 else c.run(backend="qgate", **kw)


def case(t, kind):
    rng = t.rng
    fakeqgate.RNG.seed(rng.getrandbits(31))
    fakeqgate.SCRIPT = None
    del fakeqgate.LOG[:]
    n = rng.randint(1, 4)
    if kind == "gate":
        name = NAMES[t.idx % len(NAMES)]
        n = rng.randint(ref.arity(name), 4)
        ops = [("u3", (rng.uniform(.3, 2.8), rng.uniform(-3, 3), rng.uniform(-3, 3)), q) for q in range(n)]
        ops += [(name, gen.gen_params(rng, name), gen.gen_target(rng, name, n)) for _ in range(rng.randint(1, 2))]
    else:
        ops = gen_ops(rng, n, rng.randint(1, 10) if rng.random() < .97 else rng.randint(40, 90))
    n0 = rng.choice([0, n])
    if kind == "pool" and rng.random() < .5:     # several registers that no gate touches, excited ones among them
        n0 = n = rng.randint(3, 6)
        held = rng.sample(range(n), rng.randint(1, n - 2))
        ops = [(rng.choice(["x", "x", "h", "y", "ry"]), (), q) for q in held]
        ops = [(m, (rng.uniform(.5, 2.6),) if m == "ry" else (), q) for m, _, q in ops]
        if len(held) > 1 and rng.random() < .5:
            ops.append(("cx", (), tuple(rng.sample(held, 2))))
    ops, n = gen.make_valid(ops, n0)
    if not n or n > 6:
        return
    if kind in ("shots", "pool"):
        tg = rng.choice([slice(None), rng.randrange(n), tuple(rng.sample(range(n), rng.randint(1, n))), slice(0, n, 2), -1])
        ops = ops + [("m", (), tg)]
        if rng.random() < .3:
            ops.append(("measure", (), rng.randrange(n)))
    if kind == "both":
        for _ in range(rng.randint(1, 4)):
            ops.insert(rng.randint(0, len(ops)), ("m", (), rng.randrange(n)))
        if rng.random() < .5:
            ops.append(("m", (), slice(None)))
    t.sample = gen.show(n0, ops)
    info = dict(circuit=t.sample)
    c = gen.build(Circuit, n0, ops, rng)
    t.check(c.n_qubits == n, "wrong register", **info)
    kw, want_kind, prefs = {}, "cpu", {"circuit_prep": "dynamic"}
    if rng.random() < .4:
        want_kind = kw["runtime"] = rng.choice(["cpu", "cuda", "py"])
        t.ev("runtime_chosen")
    if rng.random() < .3:
        prefs["circuit_prep"] = kw["circuit_prep"] = rng.choice(["static", "one_static"])
    if kind == "refuse":
        bad = rng.choice([dict(returns="nothing"), dict(runtime="gpu"), dict(returns="statevector_and_shots", shots=2), dict(returns="counts", shots=3)])
        try:
            r = run(c, rng, **{**kw, **bad})
        except RuntimeError:
            t.ev("refused")
        else:
            t.fail("bad options were accepted", options=bad, got=repr(r), **info)
        t.key(kind, sorted(bad), gen.structure(ops))
        return
    for turn in range(rng.choice([1, 1, 2])):
        if turn:
            del fakeqgate.LOG[:]
            t.ev("second_run")
        once(t, rng, kind, c, ops, n, dict(kw), info)
        t.check(len(fakeqgate.LOG) == 1 and fakeqgate.LOG[0][2].runs == 1, "the external simulator was not run exactly once", got=len(fakeqgate.LOG), **info)
        k, p, sim = fakeqgate.LOG[0]
        t.check(k == want_kind and p == prefs, "another runtime or other preferences were used", got=(k, p), expected=(want_kind, prefs), **info)
    t.key(kind, n, gen.structure(ops))


def compare_ops(t, ops, n, info):
    sim = fakeqgate.LOG[0][2]
    t.check(len(sim.ordering) == n, "wrong number of registers", got=len(sim.ordering), **info)
    got, want = received(sim), expected(ops, n)
    t.check(got == want, "the operations handed to the simulator differ from the circuit's", got=got, expected=want, **info)
    t.ev("ops_compared", len(want))
    t.ev("adjoint_ops", sum(w[-1] is True for w in want))
    t.ev("controlled_ops", sum(len(w) == 5 and bool(w[2]) for w in want))
    t.ev("swaps", sum(w[0] == "SWAP" for w in want))


def once(t, rng, kind, c, ops, n, kw, info):
    fakeqgate.SCRIPT = None
    exact = not any(ref.canon(o[0]) == "cu1" for o in ops)
    if kind in ("gate", "random"):
        if rng.random() < .4:
            kw["returns"] = "statevector"
        v = run(c, rng, **kw)
        compare_ops(t, ops, n, info)
        t.check((ref.same if exact else ref.same_up_to_phase)(v, ref.run(ops, n), 1e-9), "the state of the translated circuit differs", got=v, **info)
        t.ev("states_compared")
        return
    if kind == "both":
        vec, cnt = run(c, rng, returns="statevector_and_shots", **({"shots": 1} if rng.random() < .5 else {}), **kw)
        compare_ops(t, ops, n, info)
        sim = fakeqgate.LOG[0][2]
        last = ["0"] * n
        for op in sim.ops:
            if isinstance(op, fakeqgate.Measure):
                last[sim.ordering.index(op.qreg)] = str(op.ref.value)
        t.check(type(cnt) is Counter and cnt == Counter({"".join(last): 1}), "the counter is not the observed values with qubit 0 first", got=cnt, expected="".join(last), **info)
        brs = [b for b in ref.branches(ops, n) if measure.key(b[1]) == "".join(last)]
        t.check(any((ref.same if exact else ref.same_up_to_phase)(vec, b[2], 1e-6) for b in brs), "the state is not the one of the observed values", got=vec, counts=cnt, **info)
        t.ev("state_and_shot")
        return
    uni = [o for o in ops if ref.canon(o[0]) != "measure"]
    meas = sorted({q for o in ops if ref.canon(o[0]) == "measure" for (q,) in ref.resolve(o[0], o[2], n)})
    shots = rng.randint(1, 40) if rng.random() < .95 else rng.randint(1100, 6000)
    if kind == "pool" or rng.random() < .4:
        shots = 300
        if kind == "pool":
            kw["sampling"] = "blueqat"
    else:
        given = {}

        def script(width, k):
            left = k
            for v in rng.sample(range(2 ** width), rng.randint(1, 2 ** width)):
                x = rng.randint(0, left)
                if x:
                    given[v] = x
                left -= x
            if left:
                v = rng.randrange(2 ** width)
                given[v] = given.get(v, 0) + left
            return given
        fakeqgate.SCRIPT = script
    if rng.random() < .3:
        kw["returns"] = "shots"
    cnt = run(c, rng, shots=shots, **kw)
    compare_ops(t, uni, n, info)
    sim = fakeqgate.LOG[0][2]
    t.check(type(cnt) is Counter and sum(cnt.values()) == shots, "the counts do not sum to the shots", got=cnt, shots=shots, **info)
    t.check([sim.ordering.index(q) for q in sim.sampled] == meas or sorted(sim.ordering.index(q) for q in sim.sampled) == meas, "the sampled qubits are not the measured ones", got=[sim.ordering.index(q) for q in sim.sampled], expected=meas, **info)
    order = [sim.ordering.index(q) for q in sim.sampled]
    if fakeqgate.SCRIPT is not None:
        want = Counter()
        for v, k in given.items():
            s = ["0"] * n
            for i, q in enumerate(order):
                s[q] = str((v >> i) & 1)
            want["".join(s)] += k
        t.check(cnt == want, "the histogram is not returned as strings with qubit 0 first", got=cnt, expected=want, histogram=given, **info)
        t.ev("scripted_histograms")
        return
    dist = {}
    for key, p in ref.marginal(ref.run(uni, n), list(range(n))).items():
        k2 = tuple(b if q in meas else 0 for q, b in enumerate(key))
        dist[k2] = dist.get(k2, 0) + p
    bad = ref.dist_ok({tuple(map(int, k)): v for k, v in cnt.items()}, dist, shots)
    t.check(bad is None, "the counts are incompatible with the state", complaint=bad, got=cnt, **info)
    t.ev("sampled_histograms")
    if kind == "pool":
        t.ev("blueqat_pool")
        if any(q not in sim.touched for q in sim.sampled):
            t.ev("empty_lanes")
        if sum(q not in sim.touched for q in sim.sampled) > 1:
            t.ev("several_empty_lanes")
