"""W07: Boltzmann-machine helpers against the statistics they are defined by."""
import contextlib
import io
import math

import numpy as np
from blueqat import wq

RULE = ("random layer sizes, weights and visible data: hidden probabilities, data matrix; model matrix and training with an optimizer whose annealing is recorded or replaced by scripted samples, the statistics recomputed from the samples; "
        "distinct = sizes, weights and data")
REQUIRED = ["hidden", "data_matrix", "model_matrix", "scripted_samples", "real_samples", "epochs", "every_row_used", "options", "arguments_unchanged", "verbose", "sigmoid", "sample_energies", "one_shot", "many_units"]
ASSUMES = ["numpy arithmetic"]


def plan(tier):
    k = 6 if tier == "quick" else 25
    return [("hidden", 120 * k), ("model", 60 * k), ("real", 8 * k), ("fit", 50 * k)]


def weights(rng, nv, nh):
    n = nv + nh
    m = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i == j or i < nv <= j or rng.random() < .2 and i < j:
                m[i][j] = rng.choice([rng.uniform(-3, 3), 0.0, 1.0, -.5])
    return m if rng.random() < .5 else np.array(m)


def logistic(x):
    return 1 / (1 + math.exp(-x)) if x > -700 else 0.0


def hidden(v, m, n):
    nv = len(v)
    return [logistic(float(m[i][i]) + sum(float(m[j][i]) * v[j] for j in range(nv))) for i in range(nv, n)]


def data_matrix(v, m):
    n = len(m)
    h = hidden(v, m, n)
    out = np.zeros((n, n))
    for i, x in enumerate(list(v) + h):
        out[i, i] = x
    for i in range(len(v)):
        for j in range(len(h)):
            out[i, len(v) + j] = v[i] * h[j]
    return out


def model_matrix(samples, nv, nh):
    s = np.array(samples, dtype=float)
    n = nv + nh
    out = np.zeros((n, n))
    for i in range(n):
        out[i, i] = s[:, i].mean()
    for i in range(nv):
        for j in range(nv, n):
            out[i, j] = (s[:, i] * s[:, j]).mean()
    return out


class Recorded(wq.Opt):
    """The optimizer with its annealing recorded, or replaced by a script."""

    def __init__(self, script=None):
        super().__init__()
        self.script, self.log = script, []

    def run(self, *a, **kw):
        r = self.script(*a, **kw) if self.script else super().run(*a, **kw)
        self.log.append((np.array(self.qubo, dtype=float), a, kw, [list(x) for x in r] if r and isinstance(r[0], (list, tuple)) else [list(r)]))
        return r


_HOOKED = []


def hooked():
    """Whether the helpers anneal by Opt.run, so that its answers can be recorded."""
    if not _HOOKED:
        o = Recorded(lambda *a, **k: [[1, 1], [0, 1]])
        o.setRBM([1, 1])
        o.Ts = .03
        o.rbm_model_qubo(shots=2)
        _HOOKED.append(bool(o.log))
    return _HOOKED[0]


def model_only(t, o, got, w, nv, nh, shots):
    """The model matrix judged without knowing the samples: counts, and the energies that the annealer listed."""
    n = nv + nh
    t.check(got.shape == (n, n), "the model matrix has a wrong shape", got=got.shape)
    c = got * shots
    t.check(float(np.max(np.abs(c - np.round(c)))) < 1e-6 and c.min() > -1e-6 and c.max() < shots + 1e-6, "an entry of the model matrix is no frequency", got=got, shots=shots)
    for i in range(n):
        for j in range(n):
            if i != j:
                lim = min(got[i, i], got[j, j]) if i < nv <= j else 0.0
                t.check(max(0.0, got[i, i] + got[j, j] - 1 if i < nv <= j else 0.0) - 1e-9 <= got[i, j] <= lim + 1e-9, "an entry of the model matrix is no mean of products", got=got, entry=(i, j))
    w = np.array(w, dtype=float)
    if not any(w[i, j] for i in range(n) for j in range(n) if i != j and not i < nv <= j):
        es = [o.E[-1]] if shots == 1 else [e[-1] for e in o.E]
        t.check(len(es) == shots and abs(sum(es) / shots - float((w * got).sum())) < 1e-9 * (1 + np.abs(w).sum()), "the model matrix disagrees with the mean energy of the samples", weights=w, got=got,
                energies=es, expected=float((w * got).sum()))
        t.ev("sample_energies")


def case(t, kind):
    rng = t.rng
    nv, nh = rng.randint(1, 4), rng.randint(1, 3)
    if kind != "real" and rng.random() < .1:
        nv, nh = rng.choice([(9, 2), (2, 9), (12, 10), (30, 5)])
        t.ev("many_units")
    n = nv + nh
    if kind == "hidden":
        m = weights(rng, nv, nh)
        v = [rng.randint(0, 1) for _ in range(nv)]
        km, kv = repr(m), repr(v)
        got = wq.rbm_hmodel(v, m)
        want = hidden(v, m, n)
        t.check(len(got) == nh and all(abs(a - b) < 1e-12 for a, b in zip(got, want)), "hidden probabilities are not the logistic function of bias plus weighted data", weights=km, data=v, got=got, expected=want)
        t.ev("hidden")
        d = np.array(wq.rbm_data_qubo(v, m))
        wd = data_matrix(v, m)
        t.check(d.shape == (n, n) and float(np.max(np.abs(d - wd))) < 1e-12, "the data matrix is not the outer statistics of data and hidden probabilities", weights=km, data=v, got=d, expected=wd)
        t.ev("data_matrix")
        t.check(repr(m) == km and repr(v) == kv, "an argument was modified", before=(km, kv), after=(repr(m), repr(v)))
        t.ev("arguments_unchanged")
        x = rng.uniform(-30, 30)
        t.check(abs(wq.sigm(x) - logistic(x)) < 1e-12, "sigm is not the logistic function", x=x, got=wq.sigm(x))
        t.ev("sigmoid")
        t.key("hidden", km, tuple(v))
        t.sample = f"{nv}+{nh} units, data {v}"
        return

    def script(shots=1, *a, **kw):
        p = rng.choice([.2, .2, .95])
        res = [[rng.randint(0, 1) if rng.random() >= p else 1 for _ in range(n)] for _ in range(shots)]
        return res[0] if shots == 1 else res

    o = Recorded(None if kind == "real" else script)
    o.setRBM([nv, nh])
    if not hooked():
        o.Ts = .03         # one temperature
    if kind in ("model", "real"):
        o.qubo = weights(rng, nv, nh)
        shots = rng.choice([1, 2, 3, 10, 50, 50, 200, 300]) if kind == "model" else rng.choice([1, 2, 3])
        w0 = np.array(o.qubo, dtype=float)
        r = rng.random()
        if r < .3 and kind == "model":
            got, shots = o.rbm_model_qubo(), 100
        elif r < .6:
            got = o.rbm_model_qubo(shots)
        else:
            got = o.rbm_model_qubo(shots=shots, targetT=.5)
            t.ev("options")
            t.check(not o.log or .5 in list(o.log[0][1]) + list(o.log[0][2].values()), "the final temperature is not passed on", got=o.log and o.log[0][1:3])
        if shots == 1:
            t.ev("one_shot")
        if kind == "real" or not o.log:
            model_only(t, o, np.asarray(got), w0, nv, nh, shots)
        if not o.log:              # annealed by something else than Opt.run
            t.ev("model_matrix")
            t.ev("scripted_samples" if kind == "model" else "real_samples")
            return
        t.check(len(o.log) == 1 and len(o.log[0][3]) == shots, "the model is not sampled once with the given shots", calls=len(o.log), shots=shots)
        want = model_matrix(o.log[0][3], nv, nh)
        got = np.asarray(got)
        t.check(got.shape == (n, n) and float(np.max(np.abs(got - want))) < 1e-9, "the model matrix is not the mean of bits and visible-hidden pairs of the samples", samples=o.log[0][3], got=got, expected=want)
        t.ev("model_matrix")
        t.ev("scripted_samples" if kind == "model" else "real_samples")
        t.key(kind, nv, nh, shots, repr(o.log[0][3])[:200])
        t.sample = f"{nv}+{nh} units, {shots} shots"
        return
    rows = [[rng.randint(0, 1) for _ in range(nv)] for _ in range(rng.randint(1, 4) if rng.random() < .9 else 40)]
    data = rng.choice([lambda: rows, lambda: np.array(rows), lambda: tuple(map(tuple, rows))])()
    keep = repr(data)
    start = weights(rng, nv, nh)
    o.qubo = start
    kw = {}
    if rng.random() < .7:
        kw["alpha"] = rng.choice([.5, 1.0, 0.0, .9])
    if rng.random() < .7:
        kw["epsilon"] = rng.choice([.3, 1.0, .05])
    if rng.random() < .7:
        kw["shots"] = rng.choice([1, 2, 5, 30])
    if rng.random() < .4:
        kw["targetT"] = .7
    if not hooked():
        kw["shots"] = rng.choice([1, 2, 5])
    alpha, eps, shots = kw.get("alpha", .9), kw.get("epsilon", .1), kw.get("shots", 100)
    epochs = kw["epoch"] = rng.choice([1, 2, 5, 40] + [120] * (n < 8) if hooked() else [1, 1, 2])
    ks = repr(start)
    out = io.StringIO()
    verbose = rng.random() < .3
    with contextlib.redirect_stdout(out):
        o.fit(data, verbose=True, **kw) if verbose else o.fit(data, verbose=False, **kw)
    t.check((out.getvalue() != "") == verbose, "verbose output is wrong", printed=out.getvalue()[:200], verbose=verbose)
    if verbose:
        t.ev("verbose")
    t.check(repr(data) == keep and repr(start) == ks, "training modified the data or the initial weights' object", before=(keep, ks), after=(repr(data), repr(start)))
    t.ev("arguments_unchanged")
    if not o.log:                  # annealed by something else than Opt.run
        if epochs == 1:
            old, new = np.array(start, dtype=float), np.array(o.qubo, dtype=float)
            for row in rows:
                model = data_matrix([1 - x for x in row], old) - (new - alpha * old) / eps
                c = model * shots
                if np.max(np.abs(c - np.round(c))) < 1e-6 and np.allclose(np.diag(model)[:, None] + 1e-9 >= model, True) and model.min() > -1e-9:
                    break
            else:
                t.fail("an epoch does not replace the weights by alpha*old + epsilon*(data - model)", old=old, new=new, rows=rows, alpha=alpha, epsilon=eps)
        t.ev("epochs")
        t.ev("every_row_used")
        return
    t.check(len(o.log) == epochs, "training does not sample the model once per epoch", got=len(o.log), expected=epochs)
    steps = [x[0] for x in o.log] + [np.array(o.qubo, dtype=float)]
    t.check(np.array_equal(steps[0], np.array(start, dtype=float)), "training does not start from the given weights", got=steps[0], expected=start)
    seen = set()
    for i in range(epochs):
        _, a, k, samples = o.log[i]
        t.check(len(samples) == shots, "the model is not sampled with the given shots", got=len(samples), expected=shots)
        if "targetT" in kw:
            t.check(.7 in list(a) + list(k.values()), "the final temperature is not passed on", got=(a, k))
        model = model_matrix(samples, nv, nh)
        fits = []
        for j, row in enumerate(rows):
            v = [1 - x for x in row]
            want = alpha * steps[i] + eps * (data_matrix(v, steps[i]) - model)
            if float(np.max(np.abs(want - steps[i + 1]))) < 1e-9:
                fits.append(j)
        t.check(bool(fits), "an epoch does not replace the weights by alpha*old + epsilon*(data - model)", epoch=i, old=steps[i], new=steps[i + 1], model=model, rows=rows, alpha=alpha, epsilon=eps)
        seen |= {tuple(rows[j]) for j in fits}
        t.ev("epochs")
    if epochs == 40 and eps > 0:
        t.check(len(seen) == len({tuple(r) for r in rows}), "some rows of the data are never used in 40 epochs", rows=rows, used=sorted(seen)) if len(rows) <= 2 else None
        t.ev("every_row_used")
    t.key("fit", nv, nh, ks, repr(rows), epochs)
    t.sample = f"{nv}+{nh} units, {epochs} epochs, {rows}"
