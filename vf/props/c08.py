"""C08: run options select the form of the result and nothing else."""
from collections import Counter

import numpy as np
from blueqat import Circuit

from .. import gen, measure, ref

RULE = ("every combination of shots {absent, None, 1, several} x returns {absent, None, the three forms, unknown names} x ignore_global {absent, False, True} x positional/keyword x "
        "backend {absent, 'numpy', run_with_numpy}, in random succession on the same random circuit with and without measurement; the form, the counts and the state are judged each time; "
        "distinct = circuit structure and option sequence")
REQUIRED = ["form_statevector", "form_shots", "form_both", "default_1024", "unknown_refused", "ignore_global_checked", "after_ignore_global", "positional", "small_first_amplitude"]


MAX_POSITIONAL = 3


def plan(tier):
    k = 3 if tier == "quick" else 25
    return [("unitary", 700 * k), ("measured", 500 * k)]


def check_vec(t, c, vec, kind, want, brs, exact, ig, info):
    t.check(isinstance(vec, np.ndarray) and vec.dtype == np.complex128, "the state vector is not a complex array", got=type(vec), **info)
    if kind == "unitary":
        cands = [want]
    else:
        cands = [b[2] for b in brs]
    eq = ref.same_up_to_phase if ig or not exact else ref.same
    good = [w for w in cands if eq(vec, w, 1e-6)]
    t.check(bool(good), "wrong state vector", got=vec, **info)
    if ig:
        first = [i for i in range(len(vec)) if abs(vec[i]) > 1e-9]
        if first and abs(vec[first[0]]) > 1e-5:
            a = vec[first[0]]
            t.check(abs(a.imag) < 1e-9 and a.real > 0, "ignore_global: the first amplitude is not real and positive", got=vec, **info)
            t.ev("ignore_global_checked")
    return good


def check_counts(t, cnt, kind, n, brs, shots, info):
    t.check(isinstance(cnt, Counter), "counts are not a Counter", got=type(cnt), **info)
    t.check(sum(cnt.values()) == shots, "counts do not sum to the number of shots", got=dict(cnt), shots=shots, **info)
    if kind == "unitary":
        t.check(dict(cnt) == {"0" * n: shots}, "counts of a circuit without measurement", got=dict(cnt), **info)
    else:
        sup = {measure.key(b[1]) for b in brs}
        t.check(set(cnt) <= sup, "impossible outcome", got=dict(cnt), **info)


def case(t, kind):
    rng = t.rng
    if kind == "unitary":
        n0, ops, n = gen.program(rng, nmax=4, maxops=8)
    else:
        n0, ops, n = measure.gen_meas_program(rng, nmax=3, maxops=6, p=.4, weights=(4, 1), max_meas=5)
        if ops and not any(ref.canon(o[0]) in ref.NONUNITARY for o in ops):
            ops = ops + [("m", (), 0)]
    if not n:
        return
    c = gen.build(Circuit, n0, ops, rng)
    if kind == "unitary" and rng.random() < .3:
        # a first amplitude that is small but not negligible
        ops = [(rng.choice(["ry", "rx"]), (np.pi - 2 * 10 ** rng.uniform(-4.6, -1),), q) for q in range(n) if q == 0 or rng.random() < .2]
        if rng.random() < .4:
            # purely imaginary
            ops = [("rx", (2 * 10 ** rng.uniform(-4.6, -1),), 0), ("x", (), 0)]
        else:
            ops += [(rng.choice(["rz", "phase", "rz", "z", "t"]), (), rng.randrange(n)) for _ in range(rng.randint(1, 4))]
        ops = [(o[0], (rng.choice([rng.uniform(-4, 4), np.pi, -np.pi, np.pi / 2]),), o[2]) if o[0] in ("rz", "phase") else o for o in ops]
        c = gen.build(Circuit, n, ops, rng)
        n0 = n
        t.ev("small_first_amplitude")
    exact = not any(ref.canon(o[0]) == "cu1" for o in ops)
    want = ref.run(ops, n) if kind == "unitary" else None
    brs = None if kind == "unitary" else ref.branches(ops, n)
    was_ig = False
    seq = []
    for _ in range(rng.randint(2, 7) if rng.random() < .98 else 50):
        shots = rng.choice(["absent", "absent", None, 1, rng.randint(2, 9)])
        returns = rng.choice(["absent", "absent", None, "statevector", "shots", "statevector_and_shots", "bad"])
        ig = rng.choice(["absent", "absent", False, True])
        bad = returns == "bad"
        if bad:
            returns = rng.choice(["state", "SHOTS", "", "counts", "statevector ", 0, "sampling"])
        if shots in ("absent", None) and returns in ("shots", "statevector_and_shots") and rng.random() < .7:
            shots = rng.randint(1, 5)          # the 1024-shot default is slow; exercised less often
        args, kw = [], {}
        if shots != "absent":
            if rng.random() < .3:
                args.append(shots)
            else:
                kw["shots"] = shots
        if returns != "absent":
            if len(args) == 1 and rng.random() < .5:
                args.append(returns)
            else:
                kw["returns"] = returns
        if ig != "absent":
            if len(args) == 2 and MAX_POSITIONAL > 2 and rng.random() < .5:
                args.append(ig)
            else:
                kw["ignore_global"] = ig
        if args:
            t.ev("positional")
        via = rng.choice(["run", "run", "run", "backend", "run_with_numpy"])
        f = c.run_with_numpy if via == "run_with_numpy" else c.run
        if via == "backend":
            kw["backend"] = "numpy"
        info = dict(circuit=gen.show(n0, ops), call=f"{via}(*{args}, **{kw})", before=list(seq))
        seq.append(info["call"])
        if bad:
            try:
                r = f(*args, **kw)
            except ValueError:
                t.ev("unknown_refused")
                continue
            t.fail("an unknown return form did not raise ValueError", got=repr(r), **info)
        r = f(*args, **kw)
        sh = None if shots in ("absent", None) else shots
        rt = None if returns in ("absent", None) else returns
        form = rt or ("statevector" if sh is None else "shots")
        if form == "statevector":
            check_vec(t, c, r, kind, want, brs, exact, ig is True, info)
            t.ev("form_statevector")
        elif form == "shots":
            check_counts(t, r, kind, n, brs, sh or 1024, info)
            t.ev("form_shots")
        else:
            t.check(isinstance(r, tuple) and len(r) == 2, "statevector_and_shots is not a pair", got=type(r), **info)
            check_counts(t, r[1], kind, n, brs, sh or 1024, info)
            good = check_vec(t, c, r[0], kind, want, brs, exact, ig is True, info)
            if kind != "unitary":
                recs = [measure.key(b[1]) for b in brs if any(g is b[2] for g in good)]
                t.check(any(k in r[1] for k in recs), "the state belongs to no counted shot", got=r, **info)
            t.ev("form_both")
        if sh is None and form != "statevector":
            t.ev("default_1024")
        if was_ig and ig is not True and form != "shots":
            t.ev("after_ignore_global")
        was_ig = was_ig or ig is True
    t.key(kind, n, gen.structure(ops), tuple(seq))
    t.sample = gen.show(n0, ops) + " : " + "; ".join(seq[:4])
