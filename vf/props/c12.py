"""C12: with the global generators of Python and NumPy seeded equally, everything that samples repeats; what does not sample leaves them alone."""
import random

import numpy as np
from blueqat import Circuit, vqe, wq
from blueqat.pauli import Z

from .. import gen, paulis, qubo, ref
from .c11 import same

RULE = ("random sampling jobs (shots, reset, collapsed states, samplers, Vqe.run with its default start, annealers, random builders, RBM training) on objects built anew, run twice from equal seeds "
        "with other work and other seeds in between; random jobs that do not sample, with the generators' states compared before and after; distinct = job, seed and result")
REQUIRED = ["repeated", "seed_matters", "untouched", "other_work_between", "job_shots", "job_reset", "job_collapse", "job_svsampler", "job_msampler", "job_vqe", "job_anneal", "job_sqa", "job_rands", "job_dbms",
            "job_fit", "job_same_circuit", "quiet_run", "quiet_export", "quiet_pauli", "quiet_expect", "quiet_energy", "quiet_qubo"]
ASSUMES = ["seeding means random.seed(s) and numpy.random.seed(s); the Qiskit bridge has its own seed option (B04)"]


def plan(tier):
    k = 1 if tier == "quick" else 10
    return [("repeat", 1800 * k), ("quiet", 1200 * k), ("circuit", 300 * k)]


def seed(s):
    random.seed(s)
    np.random.seed(s)


def states():
    s = np.random.get_state()
    return random.getstate(), (s[0], s[1].tobytes(), s[2:])


def gen_job(rng):
    kind = rng.choice([k[4:] for k in REQUIRED if k.startswith("job_") and k != "job_same_circuit"])
    n = rng.choice([1, 2, 3, 4])
    pre = gen.scramble(rng, n)
    meas = rng.sample(range(n), rng.randint(1, n))
    shots = rng.choice([5, 20, 60])
    if kind == "shots":
        ops = pre + [("m", (), tuple(meas))] + gen.scramble(rng, n) + [("m", (), slice(None))]
        return kind, lambda: dict(gen.build(Circuit, n, ops).run(shots=shots))
    if kind == "reset":
        ops = pre + [("reset", (), tuple(meas))]
        return kind, lambda: gen.build(Circuit, n, ops).run()
    if kind == "collapse":
        ops = pre + [("m", (), tuple(meas))]
        return kind, lambda: [x if isinstance(x, np.ndarray) else dict(x) for x in gen.build(Circuit, n, ops).run(shots=3, returns="statevector_and_shots")]
    if kind == "svsampler":
        return kind, lambda: vqe.get_state_vector_sampler(shots)(gen.build(Circuit, n, pre), meas)
    if kind == "msampler":
        return kind, lambda: vqe.get_measurement_sampler(shots)(gen.build(Circuit, n, pre), meas)
    if kind == "vqe":
        h = sum(((k + 1) * .5 * Z[k] for k in range(min(n, 2))), 0.25 * Z[0] * Z[n - 1])
        sampler = rng.choice([None, vqe.non_sampling_sampler, 30])

        def job():
            s = vqe.get_measurement_sampler(30) if sampler == 30 else sampler
            mini = vqe.get_scipy_minimizer(method="COBYLA", options={"maxiter": 8})
            r = vqe.Vqe(vqe.QaoaAnsatz(h, 1), minimizer=mini, sampler=s).run()
            return [list(r.params), r.get_probs()]
        return kind, job
    if rng.random() < .4:
        n = rng.choice([6, 8, 11])
    q = qubo.frozen(qubo.gen_qubo(rng, n))
    if kind in ("anneal", "sqa"):
        sampler = rng.choice(["normal", "fast"])

        def job():
            o = wq.Opt()
            o.qubo, o.ite, o.R, o.Ts = q, 5, .5, 20
            if kind == "sqa":
                o.tro = 2
                return [o.sqa(), o.E]
            return [o.run(shots=2, sampler=sampler, targetT=1.0), o.E]
        return kind, job
    if kind == "rands":
        return kind, lambda: wq.rands(n + 1)
    if kind == "dbms":
        return kind, lambda: wq.dbms([n, 2])

    def fit():
        o = wq.Opt()
        o.setRBM([n, 1])
        o.fit([[1] * n, [0] * n], shots=2, targetT=3.0, epoch=2, verbose=False)
        return np.array(o.qubo)
    return "fit", fit


def gen_quiet(rng):
    kind = rng.choice([k[6:] for k in REQUIRED if k.startswith("quiet_")])
    n0, ops, n = gen.program(rng, nmax=4, maxops=10)
    e, f = (paulis.gen_expr(rng, 2, 3, dyadic=True) for _ in range(2))
    if kind == "run":
        def job():
            c = gen.build(Circuit, n0, ops)
            c.make_cache()
            return [c.run(), (c.copy() + c).run(ignore_global=True), c.run(), repr(c)]
    elif kind == "export":
        def job():
            return Circuit().h[0].cx[0, 1].u3(.1, .2, .3)[1].m[:].to_qasm()
    elif kind == "pauli":
        def job():
            return [paulis.matrix_of((e * f - f).simplify(), 2), e == f, e.is_commutable_with(f), (e + f).to_matrix(2)]
    elif kind == "expect":
        def job():
            return vqe.non_sampling_sampler(gen.build(Circuit, n0, ops), range(n))
    elif kind == "energy":
        fmt = rng.choice([None, "csc", "csr", "coo", "dia", "lil", "bsr", "dok"])
        m = rng.choice([1, 2, 3])

        def job():
            a = vqe.QaoaAnsatz(Z[0] * Z[m] - Z[0], 1)
            if fmt:
                a.make_sparse(fmt)
            return [a.get_objective()([.2, .3]), a.get_energy(a.get_circuit([.1, .2]), vqe.non_sampling_sampler)]
    else:
        def job():
            return [wq.sel(3, 1, [1]), wq.net([[0, 1]], 3), wq.mul([1, 2], [3, 4]), wq.pauli([[1, 2], [0, -1]]) == 0]
    return kind, job


def case(t, kind):
    rng = t.rng
    s = rng.getrandbits(32)
    if kind == "quiet":
        name, job = gen_quiet(rng)
        t.sample = name
        seed(s)
        before = states()
        job()
        t.check(states() == before, "an operation that does not sample changed the global random generators", job=name)
        t.ev("untouched")
        t.ev("quiet_" + name)
        t.key(name, t.idx)
        return
    if kind == "circuit":
        # The same object again, not only one built anew.
        n = rng.choice([1, 2, 3])
        c = gen.build(Circuit, n, gen.scramble(rng, n)).m[:]
        seed(s)
        a = c.run(shots=40)
        if rng.random() < .5:
            c.run(shots=3)
            t.ev("other_work_between")
        seed(s)
        b = c.run(shots=40)
        t.check(dict(a) == dict(b), "equally seeded runs of one circuit differ", first=a, second=b, circuit=repr(c))
        t.ev("job_same_circuit")
        t.ev("repeated")
        t.key(repr(sorted(a.items())))
        return
    name, job = gen_job(rng)
    t.sample = f"{name}, seed {s}"
    seed(s)
    a = job()
    for _ in range(rng.randint(0, 2)):
        if rng.random() < .5:
            gen_job(rng)[1]()
        else:
            gen_quiet(rng)[1]()
        t.ev("other_work_between")
    seed(s)
    b = job()
    t.check(same(a, b), "equally seeded runs differ", job=name, first=a, second=b)
    t.ev("repeated")
    t.ev("job_" + name)
    seed(s ^ 1)
    if not same(a, job()):
        t.ev("seed_matters")
    t.key(name, repr(a))
