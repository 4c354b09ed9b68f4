"""B05: Numba kernels under a stand-in numba with shuffled parallel loops and a race detector."""
import numpy as np
from blueqat import BlueqatGlobalSetting, Circuit

from .. import fakenumba, gen, measure, ref
from . import c03, c08

RULE = ("the Numba backend imported over a stand-in numba: kernels execute as Python, every parallel loop in shuffled, reversed or ascending order, every element access recorded per iteration and checked for races; "
        "random circuits (complex128, complex64), measurement and reset programs, option successions (as C08) and run histories (as C03) with the Numba backend in the default simulator's place; distinct = structure")
REQUIRED = ["states_compared", "complex64", "parallel_loops", "iterations", "element_accesses", "post_states_matched", "frequency_tests", "reruns_checked", "ignore_global_checked", "reset_runs", "each_gate", "orders_agree", "joint_draws"]
ASSUMES = ["the stand-in's integer semantics (Python integers modulo 2**64 at declared types)", "compiled code and fastmath rounding are not observed"]


def plan(tier):
    k = 2 if tier == "quick" else 20
    return [("gate", len(gen.UNITARY) * 8 * k), ("random", 500 * k), ("measured", 220 * k), ("frequency", 60 * k), ("options", 150 * k), ("history", 150 * k), ("races", 150 * k)]


def prepare():
    fakenumba.install()
    from blueqat.backends._numba_backend_impl import NumbaBackend
    from .. import history
    BlueqatGlobalSetting.register_backend("numpy", NumbaBackend, allow_overwrite=True)
    history.NumPyBackend = NumbaBackend
    c08.MAX_POSITIONAL = 2          # the third positional parameter of this backend is another one
    if hasattr(history, "ALT"):
        BlueqatGlobalSetting.register_backend(history.ALT, NumbaBackend, allow_overwrite=True)


def case(t, kind):
    fakenumba.RNG.seed(t.rng.getrandbits(32))
    fakenumba.ORDER = t.rng.choice(["shuffle", "shuffle", "shuffle", "reverse", "ascending"])
    fakenumba.STATS.clear()
    del fakenumba.RACES[:]
    try:
        inner(t, kind)
    finally:
        for k in ("parallel_loops", "iterations", "element_accesses", "elements_watched", "kernel_calls"):
            t.ev(k, fakenumba.STATS[k])
    t.check(not fakenumba.RACES, "data race between iterations of a parallel loop", races=fakenumba.RACES[:5], trace=t.sample)


def inner(t, kind):
    rng = t.rng
    if kind == "options":
        return c08.case(t, rng.choice(["unitary", "measured"]))
    if kind == "history":
        return c03.case(t, rng.choice(["mixed", "few", "shared"]))
    if kind == "measured":
        n0, ops, n = measure.gen_meas_program(rng, nmax=4, maxops=8, p=.4, max_meas=6)
        if not n:
            return
        if any(o[0] == "reset" for o in ops):
            t.ev("reset_runs")
        t.sample = gen.show(n0, ops)
        measure.judge_support(t, n0, ops, n, rng.randint(1, 12), rng)
        t.key(kind, gen.structure(ops))
        return
    if kind == "frequency":
        if t.idx % 4 == 0:
            # one measurement or reset of several qubits: their outcomes are drawn separately
            n = 4
            ops = [("ry", (rng.uniform(.8, 2.2),), q) for q in (0, 1)] + [("cx", (), (slice(0, 2), slice(2, 4)))]
            ops += [("reset", (), rng.choice([slice(0, 2), (1, 0)])), ("measure", (), (2, 3))] if t.idx % 8 else [("measure", (), rng.choice([slice(0, 2), slice(None), (1, 0)]))]
            measure.judge_frequencies(t, n, ops, n, 200, rng)
            t.ev("joint_draws")
            t.key("joint", gen.structure(ops))
            t.sample = gen.show(n, ops)
            return
        n0, ops, n = measure.gen_meas_program(rng, nmax=3, maxops=5, p=.5, max_meas=4)
        if not n:
            return
        t.sample = gen.show(n0, ops)
        measure.judge_frequencies(t, n0, ops, n, 150, rng)
        t.key(kind, gen.structure(ops))
        return
    if kind == "gate":
        name = gen.UNITARY[t.idx % len(gen.UNITARY)]
        n = rng.randint(ref.arity(name), 5)
        ops = gen.scramble(rng, n) + [(name, gen.gen_params(rng, name), gen.gen_target(rng, name, n)) for _ in range(rng.randint(1, 2))]
        ops, n = gen.make_valid(ops, n)
        n0 = n
        t.ev("each_gate")
    else:
        n0, ops, n = gen.program(rng, rng.choice([1, 2, 3, 4, 5, 6]), 15)
    if not n:
        return
    t.sample = gen.show(n0, ops)
    c = gen.build(Circuit, n0, ops, rng)
    want = ref.run(ops, n)
    exact = not any(ref.canon(o[0]) == "cu1" for o in ops)
    if kind == "races":
        # the same run under several orders: bit-for-bit equal (kernels without reductions are deterministic)
        res = []
        for o in ["ascending", "reverse", "shuffle", "shuffle"]:
            fakenumba.ORDER = o
            res.append(gen.build(Circuit, n0, ops).run(backend="numpy"))
        t.check(all(ref.same(r, res[0], 1e-12) for r in res), "the result depends on the order of the loop iterations", circuit=t.sample)
        t.ev("orders_agree")
    if rng.random() < .3:
        v = c.run(backend="numpy", dtype=np.complex64)
        t.check(v.dtype == np.complex64, "complex64 was not used", got=v.dtype)
        t.check((ref.same if exact else ref.same_up_to_phase)(v, want, 2e-4), "wrong state (complex64)", circuit=t.sample, got=v, expected=want)
        t.ev("complex64")
        v = c.run(backend="numpy", dtype=np.complex128)
    else:
        v = c.run(backend="numpy", **({"enable_cache": rng.random() < .5} if rng.random() < .3 else {}))
    t.check(isinstance(v, np.ndarray) and v.dtype == np.complex128, "the state vector is not a complex128 array", got=type(v))
    t.check((ref.same if exact else ref.same_up_to_phase)(v, want, 1e-8), "wrong state", circuit=t.sample, got=v, expected=want)
    t.check(ref.same(c.run(backend="numpy"), v, 1e-12), "a second run differs", circuit=t.sample)
    t.ev("states_compared")
    t.key(kind, n, gen.structure(ops))
