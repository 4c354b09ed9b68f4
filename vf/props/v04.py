"""V04: Vqe.run and its result, watched through scripted minimizers, ansatz and samplers."""
import contextlib
import io

import numpy as np
from scipy.optimize import minimize as scipy_minimize
from blueqat import Circuit, vqe
from blueqat.pauli import Expr

from .. import gen, paulis as P, ref
from .v01 import Fixed, expectation, hamiltonian

RULE = ("Vqe.run with scripted minimizers (which query the objective at chosen points, several times, in any order, and return some parameters), random ansatz circuits, recording exact, sampling or absent samplers, verbose or not; then random "
        "sequences of get_probs / most_common / probs with and without a sampler, rerun and store, judged by a model of the cache; SciPy and default minimizers by what they return; distinct = Hamiltonian, points and queries")
REQUIRED = ["many_outcomes", "runs", "objective_values", "params_returned", "result_circuit", "exact_probs", "sampled_probs", "cached", "recomputed", "not_stored", "most_common", "verbose", "scipy", "minimizer_reused", "default_minimizer", "circuit_unchanged", "latest_result", "qaoa", "close_points", "own_sampler"]
ASSUMES = []


def plan(tier):
    k = 5 if tier == "quick" else 25
    return [("run", 350 * k), ("scipy", 24 if tier == "quick" else 100)]


def bits_dist(state, n):
    return ref.marginal(state, range(n))


def same_dist(a, b, tol=1e-9):
    return all(abs(a.get(k, 0.0) - b.get(k, 0.0)) <= tol for k in set(a) | set(b))


def minimizer(t, rng):
    """One SciPy minimizer used several times: it does each time what SciPy does with its options."""
    kw = rng.choice([dict(method="Nelder-Mead", options={"maxfev": rng.choice([8, 15, 30])}), dict(method="Nelder-Mead", tol=.05), dict(method="COBYLA", options={"maxiter": 12, "rhobeg": .3}), dict(method="Powell", options={"maxfev": 40})])
    kept = repr(kw)
    mini = vqe.get_scipy_minimizer(**kw)
    for _ in range(rng.randint(2, 4)):
        k = rng.randint(1, 4)
        w = [rng.uniform(-2, 2) for _ in range(2 * k)]
        seen = []

        def f(x):
            t.check(len(x) == k, "the objective was given another number of parameters", got=len(x), expected=k)
            seen.append([float(y) for y in x])
            return float(sum(a * np.sin(b + y) + .1 * y * y for a, b, y in zip(w[::2], w[1::2], x)))
        x = [float(y) for y in mini(f, k)]
        mine = seen[:]
        del seen[:]
        want = [float(y) for y in scipy_minimize(f, mine[0], **kw).x]
        t.check(mine == seen and x == want, "a SciPy minimizer does not do what SciPy does with its options from the same start", options=kept, got=x, expected=want, evaluations=(len(mine), len(seen)))
        t.check(repr(kw) == kept, "the minimizer changed its options", before=kept, after=repr(kw))
        t.ev("minimizer_reused")
    t.key("minimizer", kept, repr(w))
    t.sample = kept


def case(t, kind):
    rng = t.rng
    n = rng.randint(1, 3) if kind == "scipy" or rng.random() < .8 else rng.randint(4, 6)
    k = rng.randint(1, 3) if rng.random() < .96 else rng.choice([8, 17])
    # the ansatz: fixed gates and rotations by the parameters
    def make_ops(params):
        r = __import__("random").Random(shape)
        ops = [("ry", (r.uniform(0, 3),), q) for q in range(n)] if n > 3 else []
        for i in range(k):
            ops.append((r.choice(["rx", "ry", "rz", "ry"]), (float(params[i]),), r.randrange(n)))
            if n > 1:
                a, b = r.sample(range(n), 2)
                ops.append((r.choice(["cx", "cz", "cx"]), (), (a, b)))
            ops.append((r.choice(["h", "t", "s", "x"]), (), r.randrange(n)))
        return ops
    shape = rng.random()
    h = hamiltonian(rng, n)
    calls = []
    make = lambda params: gen.build(Circuit, n, make_ops(params))
    ansatz = Fixed(h, k, make)
    state_of = lambda params: ref.run(make_ops(params), n)
    energy_of = lambda params: expectation(h, state_of(params), n)
    info = dict(hamiltonian=repr(h))
    if kind == "scipy":
        if rng.random() < .4:
            return minimizer(t, rng)
        if rng.random() < .5:
            mini = None
            t.ev("default_minimizer")
        else:
            mini = vqe.get_scipy_minimizer(method=rng.choice(["Nelder-Mead", "COBYLA", "Powell"]), options={"maxiter": 25})
            t.ev("scipy")
        if rng.random() < .4:
            z = P.CTOR["Z"]
            ansatz = vqe.QaoaAnsatz(z[0] * z[1] - .5 * z[0] if rng.random() < .5 else 1.0 * z[0] + z[1], 1)
            v = vqe.Vqe(ansatz, mini) if mini else vqe.Vqe(ansatz)
            r = v.run()
            t.check(len(r.params) == 2, "the result's parameters have a wrong length", got=repr(r.params))
            t.check(ref.same_up_to_phase(r.circuit.run(), ansatz.get_circuit(r.params).run(), 1e-9), "the result's circuit is not the ansatz circuit for the result's parameters", got=repr(r.circuit))
            t.ev("qaoa")
        else:
            s = rng.choice([None, vqe.non_sampling_sampler])
            v = vqe.Vqe(ansatz, mini, s) if rng.random() < .5 else vqe.Vqe(ansatz, minimizer=mini, sampler=s)
            r = v.run()
            t.check(len(r.params) == k, "the result's parameters have a wrong length", got=repr(r.params), expected=k)
            st = state_of(r.params)
            t.check(ref.same_up_to_phase(r.circuit.run(), st, 1e-8), "the result's circuit is not the ansatz circuit for the result's parameters", got=repr(r.circuit), **info)
            t.check(same_dist(r.get_probs(), bits_dist(st, n)), "the result's probabilities are not the circuit's", got=r.get_probs(), expected=bits_dist(st, n), **info)
        t.key("scipy", repr(h), shape)
        t.sample = f"{h!r} with {mini}"
        return

    points = [[rng.uniform(-7, 7) for _ in range(k)] for _ in range(rng.randint(1, 5) if rng.random() < .97 else rng.choice([40, 300]))]
    points += [rng.choice(points) for _ in range(rng.randint(0, 2))]
    points.append([0.0] * k)
    for _ in range(rng.randint(0, 3)):          # finite differences
        near, i, d = list(rng.choice(points)), rng.randrange(k), rng.choice([1e-3, -1e-5, 1e-6, 1e-7, -1e-8])
        near[i] += d
        points.append(near)
        t.ev("close_points")
    final = rng.choice([points[0], points[-1], [rng.uniform(-3, 3) for _ in range(k)]])
    final = rng.choice([list, tuple, np.array])(final)
    seen = []

    def mini(objective, n_params):
        seen.append(n_params)
        for p in points:
            p = rng.choice([list, np.array, tuple])(p)
            calls.append((list(map(float, p)), objective(p)))
        return final

    log = []

    def exact(circuit, meas):
        meas = list(meas)
        log.append((repr(circuit), meas))
        return ref.marginal(np.asarray(circuit.run()), meas)

    sampler = rng.choice([None, exact, vqe.non_sampling_sampler])
    if rng.random() < .3:
        ansatz.make_sparse(rng.choice(["csr", "csc", "lil"]))
    v = vqe.Vqe(ansatz, mini, sampler) if rng.random() < .5 else vqe.Vqe(ansatz, minimizer=mini, sampler=sampler)
    results = []
    for _ in range(rng.choice([1, 1, 2])):
        calls.clear()
        seen.clear()
        if rng.random() < .2:
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                r = v.run(verbose=True)
            t.check(out.getvalue().count("\n") >= len(points), "verbose does not print every evaluation", printed=out.getvalue())
            t.ev("verbose")
        else:
            r = v.run()
        t.check(seen == [k], "the minimizer was not called once with the number of parameters", got=seen, expected=k)
        for p, e in calls:
            want = energy_of(p)
            t.check(abs(e - want) < 1e-11 * (1 + sum(abs(c) for c, _ in P.terms_of(h))), "the objective is not the ansatz energy at the point", params=p, got=e, expected=want, sampler=str(sampler), **info)
            t.ev("objective_values")
        t.check(type(r.params) is type(final) and list(map(float, r.params)) == list(map(float, final)), "the result does not hold the parameters which the minimizer returned", got=repr(r.params), expected=repr(final))
        t.ev("params_returned")
        st = state_of(final)
        t.check(r.circuit.n_qubits == n and ref.same_up_to_phase(r.circuit.run(), st, 1e-8), "the result's circuit is not the ansatz circuit for its parameters", got=repr(r.circuit), params=repr(final))
        t.ev("result_circuit")
        results.append(r)
        t.ev("runs")
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        t.check(list(map(float, v.result.params)) == list(map(float, final)) and v.result is results[-1], "Vqe.result is not the result of the last run", got=repr(v.result))
    t.ev("latest_result")

    # queries of the probabilities, against a model of the cache
    dist = bits_dist(st, n)
    r = results[-1]
    shown = repr(r.circuit)
    cache = None
    number = [0]

    def marked(tag):
        # a user's sampler whose answers can be told apart
        def s(circuit, meas):
            meas = list(meas)
            number[0] += 1
            log.append((repr(circuit), meas))
            t.check(meas == list(range(n)), "the sampler is not asked for all qubits in order", got=meas)
            d = ref.marginal(np.asarray(circuit.run()), meas)
            d["tag"] = tag
            return d
        return s

    queries = []
    for i in range(rng.randint(2, 7)):
        q = rng.choice(["plain", "plain", "sampler", "rerun", "common", "common", "norerun", "probs", "nostore", "sampling", "own"])
        queries.append(q)
        if q == "plain":
            got, new = r.get_probs(), cache is None
            want = dist if new else cache
            if new:
                cache = got
        elif q == "rerun":
            got = r.get_probs(rerun=True)
            want, new = dist, True
            cache = got
        elif q == "probs":
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got = r.probs
            new = cache is None
            want = dist if new else cache
            if new:
                cache = got
        elif q == "nostore":
            kw = rng.choice([dict(rerun=True), {}])
            got = r.get_probs(store=False, **kw)
            new = cache is None or bool(kw)
            want = dist if new else cache
            t.ev("not_stored")
        elif q == "own":                # the very sampler of the Vqe
            if sampler is None:
                continue
            b = len(log)
            got = r.get_probs(sampler=sampler)
            if sampler is exact:
                t.check(len(log) == b + 1, "a given sampler is not called once", calls=len(log) - b)
            want, new = dist, True
            cache = got
            t.ev("own_sampler")
        elif q == "norerun":
            s = marked(i)
            got = r.get_probs(s, rerun=False)
            new = cache is None
            want = dict(dist, tag=i) if new else cache
            if new:
                cache = got
        elif q == "sampler":
            s = marked(i)
            store = rng.random() < .6
            b = number[0]
            got = r.get_probs(s) if store else r.get_probs(sampler=s, store=False)
            t.check(number[0] == b + 1, "a given sampler is not called once", calls=number[0] - b)
            want, new = dict(dist, tag=i), True
            if store:
                cache = got
            t.ev("sampled_probs")
        elif q == "sampling":
            got = r.get_probs(vqe.get_measurement_sampler(200), store=False)
            bad = ref.dist_ok({a: round(p * 200) for a, p in got.items()}, dist, 200, 1e-11)
            t.check(bad is None, "sampled probabilities are those of another distribution", complaint=bad, got=got, expected=dist)
            continue
        else:
            if cache is not None and "tag" in cache:
                continue
            m = rng.choice([None, 1, 2, 2, 3, 5, 2 ** n, 2 ** n + 3])
            got = r.most_common() if m is None else r.most_common(m) if rng.random() < .5 else r.most_common(n=m)
            m = 1 if m is None else m
            want = sorted(dist.values(), reverse=True)
            t.check(isinstance(got, tuple), "most_common() is no tuple", got=repr(got))
            t.check(all(a[1] >= b[1] for a, b in zip(got, got[1:])), "most_common() is not in descending order", got=got)
            t.check(len({a for a, _ in got}) == len(got) and all(abs(dist.get(a, 0.0) - p) < 1e-9 for a, p in got), "most_common() lists other probabilities", got=got, expected=dist)
            real = [p for p in want if p > 1e-12]
            t.check(len(got) <= m and len(got) >= min(m, len(real)), "most_common() has a wrong length", got=got, n=m, expected=dist)
            t.check(all(abs(p - w) < 1e-9 for (_, p), w in zip(got, want)), "most_common() leaves out likelier outcomes", got=got, expected=dist)
            t.ev("most_common")
            if n > 3:
                t.ev("many_outcomes")
            if cache is None:
                cache = r.get_probs()
            continue
        t.check(("tag" in got) == ("tag" in want) and got.get("tag") == want.get("tag"), "the probabilities come from another call than they should", query=queries, got=got, expected=want)
        t.check(same_dist({a: p for a, p in got.items() if a != "tag"}, {a: p for a, p in want.items() if a != "tag"}), "the probabilities are not the circuit's outcome distribution", query=queries, got=got, expected=want,
                circuit=repr(r.circuit))
        t.ev("recomputed" if new else "cached")
        if sampler is None and "tag" not in got:
            t.ev("exact_probs")
    t.check(repr(r.circuit) == shown and ref.same_up_to_phase(r.circuit.run(), st, 1e-8), "asking for the probabilities changed the result's circuit", before=shown, after=repr(r.circuit))
    t.ev("circuit_unchanged")
    if len(results) > 1:
        t.check(same_dist(results[0].get_probs(), dist), "the first result's probabilities are not its circuit's", got=results[0].get_probs())
    t.key("run", repr(h), shape, tuple(queries))
    t.sample = f"{h!r}: {len(points)} points, queries {queries}"
