"""V03: the QAOA circuit is the alternating product of its evolutions."""
import math

import numpy as np
from blueqat import Circuit, vqe
from blueqat.pauli import Expr, I, Term, X, Y, Z

from .. import gen, paulis as P, ref

RULE = ("random commuting Hamiltonians (diagonal, one basis per qubit, stabilizer-like groups, unsimplified, with constants), 1-4 steps, random parameters as list, tuple or array, default and given initial circuits (smaller and larger) "
        "and mixers: the ansatz circuit's state against matrix exponentials up to phase, the energy through the objective function, arguments compared before and after; non-commuting Hamiltonians and missing initial circuits; "
        "distinct = Hamiltonian, steps and parameters")
REQUIRED = ["circuits", "default_init", "given_init", "mixer", "steps_many", "larger_init", "smaller_init", "non_diagonal", "rejected", "mixer_without_init", "energies", "independent_circuits", "arguments_unchanged", "constant_term", "zero_params"]
ASSUMES = ["exp(i a P) = cos a + i sin a P for Pauli products; commuting terms may be applied in any order"]


def plan(tier):
    k = 6 if tier == "quick" else 30
    return [("qaoa", 500 * k), ("reject", 100 * k)]


def commuting(rng, n):
    r = rng.random()
    k = rng.randint(0, 5)
    if r < .45:
        basis = "Z" * n
    else:
        basis = [rng.choice("XYZ") for _ in range(n)]
    c = lambda: rng.choice([1.0, -1.0, .5, 2.0, -.25, 3, rng.uniform(-2, 2)])
    if r < .75 or n < 2:
        ts = [Term(tuple(P.CTOR[basis[q]][q] for q in rng.sample(range(n), rng.randint(0, n))), c()) for _ in range(k)]
    else:
        ts = [Term((P.CTOR[a][0], P.CTOR[a][1]), c()) for a in rng.sample("XYZ", rng.randint(1, 3))]
        if n > 2:
            ts += [Term((P.CTOR[basis[q]][q],), c()) for q in range(2, n)]
    rng.shuffle(ts)
    return ts


def expo(state, term, angle, n):
    """exp(i * angle * term) on the state."""
    for key, c in P.canonical(term).items():
        m = ref.pauli_matrix([(l, q) for q, l in key], n)
        a = float(c.real) * angle
        state = math.cos(a) * state + 1j * math.sin(a) * (m @ state)
    return state


def case(t, kind):
    rng = t.rng
    if kind == "reject":
        if rng.random() < .6:
            n = rng.choice([1, 2, 3])
            q = rng.randrange(n)
            a, b = rng.sample("XYZ", 2)
            spoil = [Term((P.CTOR[a][q],), rng.choice([1.0, -.5])), Term((P.CTOR[b][q],) + tuple(Z[j] for j in range(n) if j != q and rng.random() < .5), rng.choice([1.0, 2.0, -.125]))]
            h = Expr(tuple(spoil + [Term((), .5)] * rng.randint(0, 2)))
            if rng.random() < .5:
                h = P.rewrite(rng, h)
            args = dict(step=rng.choice([1, 2]))
            if rng.random() < .3:
                args["init_circuit"] = Circuit(n).h[:]
            try:
                vqe.QaoaAnsatz(h, **args)
            except ValueError:
                t.ev("rejected")
            else:
                t.fail("a Hamiltonian of non-commuting terms was accepted", hamiltonian=repr(h))
            t.key("reject", repr(h))
            t.sample = repr(h)
            return
        try:
            vqe.QaoaAnsatz(Z[0] * Z[1] + Z[0], rng.choice([1, 2]), mixer=[X[0] * X[1]])
        except ValueError:
            t.ev("mixer_without_init")
        else:
            t.fail("a mixer without initial circuit was accepted")
        return
    n = rng.choice([1, 2, 3, 3, 4])
    ts = commuting(rng, n)
    h = Expr(tuple(ts)) if len(ts) != 1 or rng.random() < .5 else ts[0]
    if rng.random() < .4:
        h = P.rewrite(rng, h)
    if any(abs(c.imag) for c in P.canonical(h).values()):
        return
    can = P.canonical(h)
    hw = max([q + 1 for k in can for q, _ in k], default=0)
    step = rng.choice([1, 1, 2, 3, 4])
    args, pos = {}, []
    if rng.random() < .3 and step == 1:
        pass
    elif rng.random() < .5:
        pos = [step]
    else:
        args["step"] = step
    # initial circuit
    init_ops, n0, mixer = None, 0, None
    if rng.random() < .5:
        m = rng.randint(1, 4)
        init_ops = gen.scramble(rng, m)
        n0 = rng.choice([0, m])
        if rng.random() < .3 and m >= hw:
            init_ops.append(("h", (), slice(None)))
        args["init_circuit"] = gen.build(Circuit, n0, init_ops)
        t.ev("given_init")
        t.ev("larger_init" if m > hw else "smaller_init" if m < hw else "same_init")
        if rng.random() < .5:
            mixer = [P.gen_term(rng, max(hw, 1), rng.randint(0, 3), True) for _ in range(rng.randint(1, 3))]
            mixer = [Term(x.ops, x.coeff * 1j) if next(iter(P.canonical(x).values()), 0j).imag and not next(iter(P.canonical(x).values())).real else x for x in mixer]
            mixer = [x for x in mixer if not next(iter(P.canonical(x).values()), 0j).imag]
            if mixer:
                args["mixer"] = rng.choice([list, tuple, lambda x: Expr(tuple(x))])(mixer)
                t.ev("mixer")
            else:
                mixer = None
    else:
        t.ev("default_init")
    before = (repr(h), repr(args.get("mixer")), repr(args.get("init_circuit")))
    a = vqe.QaoaAnsatz(h, *pos, **args)
    t.check(a.n_params == 2 * step, "n_params is not twice the number of steps", got=a.n_params, step=step)
    base = None
    for rep in range(rng.choice([1, 2, 3])):
        ps = [rng.choice([rng.uniform(0, 1), rng.uniform(-2, 2), 0.0, .5, rng.uniform(-10, 10)]) for _ in range(2 * step)]
        if not any(ps):
            t.ev("zero_params")
        given = rng.choice([list, tuple, np.array])(ps)
        keep = list(map(float, given))
        info = dict(hamiltonian=before[0], step=step, params=ps, mixer=before[1], init=before[2])
        c = a.get_circuit(given)
        t.check(isinstance(c, Circuit), "get_circuit() gives no circuit", **info)
        t.check(list(map(float, given)) == keep, "get_circuit() modified the parameters", got=repr(given), **info)
        w = c.n_qubits
        mw = max([q + 1 for x in mixer or [] for k in P.canonical(x) for q, _ in k], default=0)
        iw = 0 if init_ops is None else max([n0] + [ref.n_after(init_ops, n0)])
        t.check(w == max(hw, iw, mw), "the ansatz circuit has a wrong number of qubits", got=w, expected=max(hw, iw, mw), **info)
        state = ref.run(init_ops if init_ops is not None else [("h", (), slice(None))], w)
        for i in range(step):
            for k, co in can.items():
                state = expo(state, Expr((Term(tuple(P.CTOR[l][q] for q, l in k), co),)), 2 * math.pi * ps[step + i], w)
            if mixer is None:
                state = ref.run([("rx", (math.pi * ps[i],), slice(None))], w, state)
            else:
                for x in mixer:
                    state = expo(state, x, math.pi * ps[i], w)
        got = c.run()
        t.check(ref.same_up_to_phase(got, state, 1e-7), "the QAOA circuit is not the alternating product of its evolutions", circuit=repr(c), got=got, expected=state, **info)
        t.ev("circuits")
        if rng.random() < .5:
            want = float(np.vdot(state, P.matrix_of(h, max(w, P.width(h)))[:2 ** w, :2 ** w] @ state).real)
            for s in (None, vqe.non_sampling_sampler):
                e = a.get_objective(s)(given)
                t.check(abs(e - want) < 1e-7 * (1 + sum(abs(x) for x in can.values())), "the objective is not the ansatz state's energy", sampler=str(s), got=e, expected=want, **info)
                t.ev("energies")
        if base is not None:     # changing one circuit changes neither the ansatz nor the others
            t.check(ref.same_up_to_phase(base[0].run(), base[1], 1e-7), "an earlier ansatz circuit has changed", **info)
            t.ev("independent_circuits")
        if rng.random() < .5:
            c.x[0].h[:]
        else:
            base = (c, state)
        t.check((repr(h), repr(args.get("mixer")), repr(args.get("init_circuit"))) == before, "building the ansatz circuit changed the Hamiltonian, the mixer or the initial circuit", before=before,
                after=(repr(h), repr(args.get("mixer")), repr(args.get("init_circuit"))))
        t.ev("arguments_unchanged")
        if step > 1:
            t.ev("steps_many")
        if any(l != "Z" for k in can for _, l in k):
            t.ev("non_diagonal")
        if () in can:
            t.ev("constant_term")
        if not any(ps[:step]) or not any(ps[step:]):
            t.ev("zero_params")
        t.key(before, step, tuple(ps))
    t.sample = f"{before[0]}, step={step}, params={ps}"
