"""C13: an interrupt at any point of a call leaves every object as before or after it, and later results are right."""
import operator
import random
import warnings

import numpy as np
from blueqat import BlueqatGlobalSetting as G
from blueqat import Circuit, vqe, wq
from blueqat.backends.numpy_backend import NumPyBackend
from blueqat.experimental.operations import Ops
from blueqat.experimental.utils import circuit_to_unitary
from blueqat.pauli import Expr, X, Y, Z, commutator
from blueqat.utils import ignore_global_phase, to_inttuple

from .. import fakenumba, fakeqgate, gen, interrupt, paulis, qubo

RULE = ("calls on circuits (appending, joining, macros, evolutions, runs on every backend, caches, exports), registries, Pauli operators, ansaetze and Vqe, annealers and Boltzmann machines, experimental operations: each call is "
        "ended by an interrupt at every point (or a sample of 30) at which the interpreter may deliver one in blueqat's code, on objects built anew each time; then the state is compared with before/after, the call is repeated and "
        "results are compared with those of fresh objects under the same seeds; distinct = (call, place of the interrupt)")
REQUIRED = ["interrupts", "points", "on_append", "on_join", "on_macro", "on_evolution", "on_run", "on_shots", "on_cache", "on_numba", "on_qgate", "on_shared_backend", "on_export", "on_registry", "on_pauli", "on_ansatz", "on_vqe",
            "on_sampler", "on_opt", "on_boltzmann", "on_ops", "state_before", "state_after", "reruns", "repeated", "twice", "measured", "gate_cached", "changed_first"]
ASSUMES = ["CPython delivers an interrupt when a function starts or resumes, after calls and at backward jumps", "a vector or register larger than needed is no inconsistency"]


def plan(tier):
    k = 1 if tier == "quick" else 12
    return [("circuit", 160 * k), ("run", 260 * k), ("registry", 60 * k), ("pauli", 90 * k), ("vqe", 70 * k), ("opt", 60 * k), ("ops", 40 * k)]


def prepare():
    fakenumba.install()
    fakeqgate.install()
    interrupt.install()


def seed(s):
    random.seed(s)
    np.random.seed(s % 2 ** 32)
    fakenumba.RNG.seed(s)
    fakeqgate.RNG.seed(s % 2 ** 31)
    fakeqgate.SCRIPT = None
    fakenumba.ORDER = "ascending"


def same(a, b):
    if hasattr(a, "toarray"):
        return type(a) is type(b) and a.shape == b.shape and bool(np.allclose(a.toarray(), b.toarray(), rtol=1e-9, atol=1e-9))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and bool(np.allclose(a, b, rtol=1e-9, atol=1e-9))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, complex, np.number)):
        return abs(a - b) <= 1e-9 * (1 + abs(a))
    return a == b


def shape(g):
    return (g.lowername, repr(g.targets), repr(getattr(g, "params", ())), type(g).__name__)


def shapes(c):
    return [shape(g) for g in c.ops]


def attack(t, name, build, op, judge, most=30, twice=False):
    """build(seed) -> world; op(world); judge(world, finished): finished is None after an interrupt."""
    s = t.rng.getrandbits(30)
    w = build(s)
    seed(s)
    n, r = interrupt.points(lambda: op(w))
    judge(w, r)
    t.ev("points", n)
    ks = list(range(1, n + 1))
    if n > most:
        ks = sorted({n} | set(t.rng.sample(ks, most - 1)))
    for k in ks:
        w = build(s)
        for again in range(2 if twice and t.rng.random() < .3 else 1):
            if again:
                k = t.rng.randint(1, n)
                t.ev("twice")
            seed(s)
            hit = interrupt.inject(lambda: op(w), k)
            at = f"{name}, point {k} of {n} ({interrupt.where()})"
            t.check(hit is not None, "an interrupt was swallowed", call=t.sample, at=at)
            if hit:
                t.ev("interrupts")
                t.key(name, interrupt.where())
        w["at"] = at
        judge(w, None)


def rand(s):
    return random.Random(s)


# ------------------------------------------------------------------ circuits
def fresh(c):
    return Circuit(c.n_qubits, list(c.ops))


def judge_runs(t, c, info, s, backends=("numpy",)):
    """The circuit runs like a fresh one, also with one more gate."""
    measured = any(g.lowername in ("measure", "reset") for g in c.ops)
    way = t.rng.random()
    if way < .35 and c.n_qubits and c.n_qubits < 5:
        t.ev("changed_first")
        if way < .2 or not c.ops:
            c.x[c.n_qubits]             # a qubit more
        elif way < .28:
            c.ops[t.rng.randrange(len(c.ops))] = Circuit(1).y[0].ops[0]
        else:
            c.ops.pop(0)
    for step in range(2):
        for b in backends:
            f = fresh(c)
            kws = [dict()] if b == "qgate" else [dict(), dict(shots=3)] if measured else [dict()]
            for kw in kws:
                try:
                    seed(s + 1)
                    want = f.run(backend=b, **kw)
                except Exception as e:
                    want = type(e)
                try:
                    seed(s + 1)
                    got = c.run(backend=b, **kw)
                except Exception as e:
                    got = type(e)
                t.check(same(got, want), f"after an interrupted call the circuit does not run as a fresh one with its gates ({b}{', one gate more' if step else ''})", gates=repr(c), got=got, expected=want, **info)
                t.ev("reruns")
        if measured:
            t.ev("measured")
        if not step:
            if not c.n_qubits:
                return
            c.rx(.7)[0].x[c.n_qubits - 1]


def macro(c, a, b):
    return c.h[a].cx[a, b].rz(.3)[b]


def case_circuit(t):
    rng = t.rng
    n = rng.randint(1, 4)
    ops, n = gen.make_valid(gen.gen_ops(rng, n, rng.randint(0, 5), nonunitary=rng.choice([0, .2])), rng.choice([0, n]))
    more, m = gen.make_valid(gen.gen_ops(rng, rng.randint(1, 5), rng.randint(0, 4)), 0)
    one = (gen.gen_ops(rng, rng.randint(1, 5), 3) or [("x", (), 0)])[0]
    what = rng.choice(["gate", "gate", "gate", "iadd", "iself", "add", "copy", "dagger", "macro", "evolution", "default", "text"])
    ran = rng.random() < .6
    evo = (.5 * X[0] * Y[1] * Z[rng.randint(2, 4)]).simplify() if rng.random() < .5 else paulis.gen_term(rng, 4, 2, coeff=False)
    evo = evo.simplify()
    if what == "evolution" and (abs(np.imag(evo.coeff)) > 0 or not evo.ops):
        evo = Z[1] * X[3] * 0.5
    angle = rng.uniform(-3, 3)

    def build(s):
        c, d = gen.build(Circuit, n, ops), gen.build(Circuit, m, more)
        if ran and c.n_qubits:
            seed(s)
            c.run(shots=1, returns="statevector")
        return dict(c=c, d=d, s=s, bc=shapes(c), bd=shapes(d), nc=c.n_qubits, nd=d.n_qubits)

    def op(w):
        c, d = w["c"], w["d"]
        if what == "gate":
            gen.apply_op(c, one)
        elif what == "iadd":
            operator.iadd(c, d)
        elif what == "iself":
            operator.iadd(c, c)
        elif what == "add":
            return c + d
        elif what == "copy":
            return c.copy()
        elif what == "dagger":
            return c.dagger(ignore_measurement=True)
        elif what == "macro":
            c.vf_macro(1, 4)
        elif what == "evolution":
            evo.get_time_evolution()(c, angle)
        elif what == "default":
            c.set_default_backend("numpy")
        elif what == "text":
            return repr(c), str(c.x)
    full = {}
    t.sample = f"{what} {one if what == 'gate' else ''} on {gen.show(n, ops)} (other: {gen.show(m, more)})"

    def judge(w, finished):
        c, d = w["c"], w["d"]
        info = dict(call=t.sample, at=w.get("at"))
        if "after" not in full:
            full.update(after=shapes(c), n=c.n_qubits)
            w["bc"] = shapes(c)[:len(w["bc"])]
        got, before, after = shapes(c), w["bc"], full["after"]
        if what in ("macro", "evolution"):
            ok = len(before) <= len(got) <= len(after) and got == after[:len(got)]
        else:
            ok = got == before or got == after
        t.check(ok, "after an interrupted call the circuit's gates are neither those from before nor from after", before=before, got=got, after=after, **info)
        least = max([w["nc"]] + ([full["n"]] if got == after else [gen_reach(g) for g in c.ops]))
        t.check(least <= c.n_qubits <= max(full["n"], w["nc"]), "after an interrupted call the register does not hold the circuit's gates", gates=repr(c), register=c.n_qubits, before=w["nc"], after=full["n"], **info)
        t.ev("state_after" if got == after else "state_before")
        t.check(shapes(d) == (w["bd"]) and d.n_qubits == w["nd"], "an interrupted call changed its other operand", got=repr(d), **info)
        t.check(c.get_default_backend_name() == "numpy", "the default backend is wrong", got=c.get_default_backend_name(), **info)
        judge_runs(t, c, info, w["s"])
        if finished is None and what in ("gate", "iadd"):
            k = len(c.ops)
            op(w)
            t.check(len(c.ops) == k + (1 if what == "gate" else len(d.ops)), "the call cannot be repeated", gates=repr(c), **info)
            t.ev("repeated")
    from contextlib import suppress
    with suppress(ValueError):
        G.register_macro("vf_macro", macro)
    try:
        try:
            op(build(1))
        except ValueError:
            return
        attack(t, what, build, op, judge)
    finally:
        G.unregister_macro("vf_macro")
    t.ev({"gate": "on_append", "iadd": "on_join", "iself": "on_join", "add": "on_join", "macro": "on_macro", "evolution": "on_evolution"}.get(what, "on_other"))


def gen_reach(g):
    from .. import ref
    return ref.max_index(g.targets) + 1


UNI = ["x", "h", "t", "rx", "ry", "u3", "cx", "cz", "crz", "swap", "ccx", "phase", "cu3", "s"]


def case_run(t):
    rng = t.rng
    what = rng.choice(["run", "run", "run", "shots", "shots", "cache", "cache", "numba", "numba", "qgate", "shared", "shared", "qasm", "unitary", "phase", "flaky"])
    n = rng.randint(1, 2 if what == "unitary" else 4)
    non = 0 if what in ("unitary", "qgate") else rng.choice([0, 0, .25])
    names = ["x", "h", "t", "rx", "cx", "cz"] if what == "unitary" else ["x", "h", "t", "s", "rx", "ry", "u3", "cx", "cz", "crz", "swap", "ccx", "phase"] if what == "qgate" else UNI if rng.random() < .5 else None
    ops, n = gen.make_valid(gen.scramble(rng, n) * (what != "unitary") + gen.gen_ops(rng, n, rng.randint(1, 6), names, nonunitary=non), n)
    if not n or n > 5:
        return
    cut = rng.choice([0, len(ops) // 2, len(ops)])
    prior = rng.choice(["none", "none", "run", "cache", "copy"])
    returns = rng.choice(["statevector", "shots"] if what != "shared" else ["statevector"])
    t.sample = f"{what} ({returns}) on {gen.show(n, ops)}, {prior} after {cut} gates"

    def build(s):
        w = dict(s=s, shared=NumPyBackend())
        c = gen.build(Circuit, n, ops[:cut])
        if cut:
            seed(s)
            if prior == "run":
                c.run(shots=1, returns="statevector")
                w["shared"].run(c.ops, c.n_qubits, shots=1, returns="statevector")
            elif prior == "cache":
                c.make_cache()
                t.ev("gate_cached")
            elif prior == "copy":
                c.run(shots=1, returns="statevector")
                w["old"] = c
                c = c.copy()
        for o in ops[cut:]:
            gen.apply_op(c, o)
        w.update(c=c, before=shapes(c), old_before=shapes(w["old"]) if "old" in w else None)
        return w

    def op(w):
        c = w["c"]
        if what in ("run", "flaky"):
            return c.run()
        if what == "shots":
            return c.run(shots=3, returns=returns)
        if what == "cache":
            return c.make_cache()
        if what == "numba":
            return c.run(backend="numba", shots=2, returns=returns)
        if what == "qgate":
            return c.run(backend="qgate", returns="statevector")
        if what == "shared":
            return c.run(backend=w["shared"])
        if what == "qasm":
            return c.to_qasm()
        if what == "unitary":
            return c.to_unitary()
        return c.run(ignore_global=True)

    def judge(w, finished):
        c = w["c"]
        info = dict(call=t.sample, at=w.get("at"))
        t.check(shapes(c) == w["before"] and c.n_qubits == n, "an interrupted run changed the circuit", got=repr(c), **info)
        t.check(c.get_default_backend_name() == "numpy", "an interrupted run changed the default backend", got=c.get_default_backend_name(), **info)
        if what != "unitary" and t.rng.random() < .5:
            seed(3)
            want = fresh(c).run(shots=1, returns="statevector")
            seed(3)
            t.check(same(c.run(shots=1, returns="statevector"), want), "the circuit does not run as a fresh one on its default backend", gates=repr(c), **info)
        if what == "qasm":
            try:
                want = fresh(c).to_qasm()
            except Exception as e:
                want = type(e)
            t.check(same(c.to_qasm() if isinstance(want, str) else want, want), "the export differs after an interrupted one", **info)
        if what == "unitary":
            t.check(c.to_unitary() == fresh(c).to_unitary(), "the symbolic unitary differs after an interrupted run", **info)
        if what == "shared":
            d = gen.build(Circuit, n, list(reversed(ops)))
            for x in (c, d, c):
                seed(w["s"] + 2)
                want = fresh(x).run(shots=1, returns="statevector")
                seed(w["s"] + 2)
                got = x.run(backend=w["shared"], shots=1, returns="statevector")
                t.check(same(got, want), "a shared backend gives another result after an interrupted run", gates=repr(x), got=got, expected=want, **info)
        cp = c.copy()
        judge_runs(t, c, info, w["s"], ("numba", "numpy") if what == "numba" else ("qgate", "numpy") if what == "qgate" else ("numpy",))
        judge_runs(t, cp, dict(info, copied=True), w["s"], ("numba",) if what == "numba" else ("numpy",))
        if "old" in w:
            t.check(shapes(w["old"]) == w["old_before"], "an interrupted run of a copy changed the original", **info)
            judge_runs(t, w["old"], dict(info, original=True), w["s"])
    try:
        op(build(1))
    except (ValueError, NotImplementedError, TypeError):
        return
    attack(t, what, build, op, judge, most=18 if what in ("unitary", "numba", "qgate") else 26, twice=True)
    t.ev({"run": "on_run", "flaky": "on_run", "phase": "on_run", "shots": "on_shots", "cache": "on_cache", "numba": "on_numba", "qgate": "on_qgate", "shared": "on_shared_backend"}.get(what, "on_export"))


# ------------------------------------------------------------------ registries
class Gone(NumPyBackend):
    pass


def case_registry(t):
    from blueqat.gate import XGate, YGate
    rng = t.rng
    kind = rng.choice(["gate", "macro", "backend", "default"])
    mode = rng.choice(["new", "overwrite", "remove"])
    t.sample = f"{kind} {mode}"
    first, second = {"gate": (XGate, YGate), "macro": (lambda c: "first", lambda c: "second"), "backend": (NumPyBackend, Gone), "default": ("numpy", "vf_other")}[kind]
    reg = {"gate": G.register_gate, "macro": G.register_macro, "backend": G.register_backend}.get(kind)
    unreg = {"gate": G.unregister_gate, "macro": G.unregister_macro, "backend": G.unregister_backend}.get(kind)
    old = Circuit(1).x[0]

    def state():
        if kind == "default":
            return G.get_default_backend_name()
        out = []
        for c in (old, Circuit(1)):
            try:
                if kind == "gate":
                    out.append(type(c.copy().vf_name[0].ops[-1]))
                elif kind == "macro":
                    out.append(c.vf_name())
                else:
                    c.copy(copy_backends=False).run(backend="vf_name")
                    out.append(type(c.copy(copy_backends=False).run_with_vf_name.__closure__ and True))
            except (AttributeError, ValueError) as e:
                out.append(type(e))
        return out

    def clear():
        G.set_default_backend("numpy")
        for f in (G.unregister_gate, G.unregister_macro, G.unregister_backend):
            try:
                f("vf_name")
            except ValueError:
                pass

    def build(s):
        clear()
        if mode != "new" and kind != "default":
            reg("vf_name", first)
        return dict(before=state())

    def op(w):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if kind == "default":
                G.set_default_backend("vf_other")
            elif mode == "remove":
                unreg("vf_name")
            else:
                reg("vf_name", second, allow_overwrite=mode == "overwrite")
    full = {}

    def judge(w, finished):
        got = state()
        if not full:
            full["after"] = got
        t.check(got in (w["before"], full["after"]), "after an interrupted registration the name means neither what it meant before nor after", call=t.sample, at=w.get("at"), got=got, before=w["before"], after=full["after"])
        if w.get("at"):
            if got == w["before"] != full["after"]:
                op(w)
                t.check(state() == full["after"], "an interrupted registration cannot be repeated", call=t.sample, at=w["at"], got=state(), expected=full["after"])
                t.ev("repeated")
        t.check(same(old.run(), np.array([0, 1])), "a circuit no longer runs", call=t.sample, at=w.get("at"))
    G.register_backend("vf_other", Gone, allow_overwrite=True)
    try:
        attack(t, f"register {t.sample}", build, op, judge)
    finally:
        clear()
        G.unregister_backend("vf_other")
    t.ev("on_registry")


# ------------------------------------------------------------------ operators
def case_pauli(t):
    rng = t.rng
    sa, n = rng.getrandbits(30), rng.randint(1, 4)
    calls = {"mul": lambda a, b: a * b, "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "simplify": lambda a, b: a.simplify(), "eq": lambda a, b: a == b, "pow": lambda a, b: a ** 3,
             "matrix": lambda a, b: a.to_matrix(), "csc": lambda a, b: a.to_matrix(sparse="csc"), "dok": lambda a, b: b.to_matrix(sparse="dok"), "commutable": lambda a, b: a.is_commutable_with(b),
             "all": lambda a, b: a.is_all_terms_commutable(), "commutator": lambda a, b: commutator(a, b), "text": lambda a, b: (repr(a), str(b)), "iadd": lambda a, b: operator.iadd(a, b), "imul": lambda a, b: operator.imul(a, b),
             "ising": lambda a, b: wq.pauli([[1, 2, .5], [0, -1, 3], [0, 0, 2]])}
    what = rng.choice(sorted(calls))
    f = calls[what]

    def build(s):
        r = rand(sa)
        return dict(a=paulis.gen_expr(r, n, r.randint(1, 4)), b=paulis.gen_expr(r, n, r.randint(1, 4)), old=(None, None))
    w0 = build(0)
    want = f(w0["a"], w0["b"])
    texts = repr(w0["a"]), repr(w0["b"])
    t.sample = f"{what} of {texts[0]} and {texts[1]}"
    terms = paulis.terms_of(w0["a"]), paulis.terms_of(w0["b"])

    def value(x):
        return paulis.terms_of(x) if isinstance(x, Expr) else x

    def judge(w, finished):
        info = dict(call=t.sample, at=w.get("at"))
        t.check((paulis.terms_of(w["a"]), paulis.terms_of(w["b"])) == terms, "an interrupted call changed an operator", got=(w["a"], w["b"]), **info)
        got = f(w["a"], w["b"])
        t.check(same(value(got), value(want)), "an operator gives another result after an interrupted call", got=repr(got), expected=repr(want), **info)
        r = rand(sa)
        x = f(paulis.gen_expr(r, n, r.randint(1, 4)), paulis.gen_expr(r, n, r.randint(1, 4)))
        t.check(same(value(x), value(want)), "equal operators made later give another result after an interrupted call", got=repr(x), expected=repr(want), **info)
        t.ev("repeated")
    attack(t, what, build, lambda w: f(w["a"], w["b"]), judge, most=20)
    t.ev("on_pauli")


# ------------------------------------------------------------------ variational
def case_vqe(t):
    rng = t.rng
    sa = rng.getrandbits(30)
    what = rng.choice(["circuit", "objective", "sampled", "vqe", "vqe", "probs", "sampler", "make", "own", "own", "own"])
    n = rng.randint(1, 3)
    step = rng.randint(1, 2)
    given = rng.random() < .4
    mixed = given and rng.random() < .5
    params = [rng.uniform(0, 1) for _ in range(2 * step)]
    other = [rng.uniform(0, 1) for _ in range(2 * step)]

    def minimizer(objective, k):
        best = min((objective(p), i) for i, p in enumerate([params, other, params]))[1]
        return [params, other, params][best]

    def ansatz():
        r = rand(sa)
        h = r.uniform(-1, 1) * Z[0] + .3
        for i in range(1, n):
            h = h + r.uniform(-1, 1) * Z[i] * Z[i - 1] + r.uniform(-1, 1) * Z[i]
        init = Circuit(n).h[:].rx(.2)[0] if given else None
        return vqe.QaoaAnsatz(h, step, init, [1.0 * X[i] for i in range(n)] if mixed else None)
    meas = rng.sample(range(n), rng.randint(1, n))
    if what == "own":
        own = rng.choice([vqe.get_measurement_sampler(20), vqe.get_measurement_sampler(10, {"backend": "numba"}), vqe.get_state_vector_sampler(20), vqe.non_sampling_sampler])
        use = rng.choice(["sampler", "sampler", "sampler", "energy", "sparse"])
    sampler = {"sampled": vqe.get_measurement_sampler(20), "sampler": vqe.get_state_vector_sampler(20)}.get(what, vqe.non_sampling_sampler if rng.random() < .3 else None)
    t.sample = f"{what} {own.__name__ + use if what == 'own' else ''}: {n} qubits, {step} steps, init {given}, mixer {mixed}, sampler {getattr(sampler, '__name__', None)}"

    def build(s):
        a = ansatz()
        w = dict(a=a, v=vqe.Vqe(a, minimizer, sampler))
        if what == "probs":
            seed(s)
            w["r"] = w["v"].run()
        w["c"] = a.get_circuit(params)
        w["cs"], w["cn"] = shapes(w["c"]), w["c"].n_qubits
        a.make_sparse()
        w["h"], w["init"] = paulis.terms_of(a.hamiltonian), shapes(a.init_circuit)
        return w

    def op(w):
        a, v = w["a"], w["v"]
        if what == "circuit":
            return a.get_circuit(params)
        if what in ("objective", "sampled", "sampler"):
            return a.get_objective(sampler)(params)
        if what == "vqe":
            return v.run()
        if what == "probs":
            return w["r"].get_probs(), w["r"].most_common(2)
        if what == "own":
            return own(w["c"], meas) if use == "sampler" else a.get_energy(w["c"], own) if use == "energy" else a.get_energy_sparse(w["c"])
        return ansatz(), a.make_sparse()

    def judge(w, finished):
        a, v = w["a"], w["v"]
        info = dict(call=t.sample, at=w.get("at"))
        t.check(paulis.terms_of(a.hamiltonian) == w["h"] and shapes(a.init_circuit) == w["init"], "an interrupted call changed the ansatz", **info)
        f = ansatz()
        t.check(shapes(w["c"]) == w["cs"] and w["c"].n_qubits == w["cn"], "an interrupted call changed the circuit it was given", got=repr(w["c"]), **info)
        if what == "own":
            seed(4)
            want = own(fresh(w["c"]), meas), f.get_energy(fresh(w["c"]), own)
            seed(4)
            got = own(w["c"], meas), a.get_energy(w["c"], own)
            t.check(same(got, want), "a sampler gives another result after an interrupted call", got=got, expected=want, **info)
        for p in (params, other):
            t.check(shapes(a.get_circuit(p)) == shapes(f.get_circuit(p)), "the ansatz gives another circuit after an interrupted call", **info)
            seed(5)
            want = f.get_objective(sampler)(p)
            seed(5)
            got = a.get_objective(sampler)(p)
            t.check(same(got, want), "the objective has another value after an interrupted call", got=got, expected=want, **info)
        fv = vqe.Vqe(f, minimizer, sampler)
        out = []
        for x in (fv, v):
            seed(6)
            r = x.run()
            out.append((list(r.params), shapes(r.circuit), r.get_probs(), r.most_common(1)[0][1], x.result.params == r.params))
        t.check(same(out[1], out[0]), "Vqe.run gives another result after an interrupted call", got=out[1], expected=out[0], **info)
        if what == "probs":
            seed(6)
            want = fv.result.get_probs(rerun=True)
            seed(6)
            t.check(sampler is not None and sampler is not vqe.non_sampling_sampler or same(w["r"].get_probs(), want), "the probabilities differ after an interrupted call", got=w["r"].get_probs(), expected=want, **info)
        t.ev("repeated")
    attack(t, what, build, op, judge, most=12)
    t.ev({"vqe": "on_vqe", "probs": "on_vqe", "sampled": "on_sampler", "sampler": "on_sampler", "own": "on_sampler"}.get(what, "on_ansatz"))


# ------------------------------------------------------------------ annealing
def case_opt(t):
    rng = t.rng
    sa = rng.getrandbits(30)
    what = rng.choice(["run", "run", "shots", "fast", "sqa", "add", "add", "qi", "rbm", "model", "fit", "qaoa", "builders"])
    n = rng.randint(1, 2 if what == "qaoa" else 4)
    q = np.triu(np.array([[rand(sa + 7 * i + j).uniform(-2, 2) for j in range(n)] for i in range(n)]))
    e = np.triu(np.ones((n, n)))
    t.sample = f"{what} with {q.tolist()}"

    def make():
        o = wq.Opt()
        o.Ts, o.R, o.ite, o.tro, o.Gs = 1, .3, 4, 3, 1
        if what in ("rbm", "model", "fit"):
            seed(sa)
            o.setRBM([2, 1])
        else:
            o.qubo = q.tolist()
        return o

    def build(s):
        o = make()
        return dict(o=o, before=np.array(o.qubo).copy())

    def op(w):
        o = w["o"]
        if what == "run":
            return o.run()
        if what == "shots":
            return o.sa(shots=3)
        if what == "fast":
            return o.run(shots=2, sampler="fast", targetT=.5)
        if what == "sqa":
            return o.sqa()
        if what == "add":
            return o.add(e, M=2)
        if what == "qi":
            return o.qi()
        if what == "rbm":
            return o.setRBM([1, 2])
        if what == "model":
            return o.rbm_model_qubo(shots=2)
        if what == "fit":
            return o.fit([[1, 0], [0, 0]], shots=2, epoch=2, verbose=False)
        if what == "qaoa":
            return o.qaoa(step=1) if n < 2 else wq.pauli(o.qubo)
        return [wq.sel(4, 2, [1]), wq.net([[0, 1], [2, 1]], 3), wq.mul([1, 2], [3, 1]), wq.sqr([1, 2]), wq.dbms([2, 1], .5), wq.counter([[0, 1], [0, 1]]), wq.rbm_data_qubo([1, 0], wq.dbms([2, 1], .5))]
    full = {}

    def judge(w, finished):
        o = w["o"]
        info = dict(call=t.sample, at=w.get("at"))
        got = np.array(o.qubo)
        if not full:
            full["after"] = got.copy()
        if what != "fit":
            t.check(same(got, w["before"]) or same(got, full["after"]), "after an interrupted call the QUBO is neither the one from before nor from after", got=got, before=w["before"], after=full["after"], **info)
        t.check(got.shape == w["before"].shape and bool(np.isfinite(got).all()), "after an interrupted call the QUBO is damaged", got=got, **info)
        if what == "rbm":
            t.check((o.RBMvisible, o.RBMhidden) == ((1, 2) if not same(got, w["before"]) else (2, 1)), "the layer sizes do not belong to the machine", got=(o.RBMvisible, o.RBMhidden), **info)
        if what == "builders":
            t.check(same(op(w), op(w)) and wq.sel(4, 2)[1][1] == -3, "a builder gives another matrix after an interrupted call", **info)
        f = make()
        f.qubo = got.tolist()
        f.RBMvisible, f.RBMhidden = o.RBMvisible, o.RBMhidden
        out = []
        for x in (f, o):
            seed(sa + 3)
            a = x.run(shots=2)
            out.append((a, x.E, np.array(x.J), x.ep, x.sqa(), x.run(), x.E, x.rbm_model_qubo(shots=2) if x.RBMhidden else 0))
        t.check(same(out[1], out[0]), "annealing gives another result after an interrupted call", got=out[1], expected=out[0], **info)
        t.ev("repeated")
    attack(t, what, build, op, judge, most=14 if what in ("qaoa", "fit", "model") else 20)
    t.ev("on_boltzmann" if what in ("rbm", "model", "fit") else "on_opt")


# ------------------------------------------------------------------ experimental, helpers
def case_ops(t):
    rng = t.rng
    what = rng.choice(["append", "add", "dagger", "circuit", "unitary", "text", "phase", "bits"])
    names = ["x", "h", "t", "cx", "rz", "swap", "ccx", "u3"]
    ops, n = gen.make_valid(gen.gen_ops(rng, rng.randint(1, 3), rng.randint(1, 5), names), 0)
    t.sample = f"{what} on {gen.show(0, ops)}"
    v = np.array([0, 1e-9, .6j, -.8], complex)

    def build(s):
        o = gen.build(Ops, 0, ops) if False else Ops()
        for x in ops:
            o = gen.apply_op(o, x)
        return dict(o=o, c=gen.build(Circuit, 0, ops), before=(o.n_qubits, [shape(g) for g in o.ops]), v=v.copy())

    def op(w):
        o = w["o"]
        if what == "append":
            return o.rx(.2)[n]
        if what == "add":
            return o + o.dagger()
        if what == "dagger":
            return o.dagger()
        if what == "circuit":
            return o.to_circuit()
        if what == "unitary":
            return circuit_to_unitary(w["c"])
        if what == "phase":
            return ignore_global_phase(w["v"])
        if what == "bits":
            return to_inttuple({"01": 1, "10": 2})
        return repr(o)

    def judge(w, finished):
        o = w["o"]
        info = dict(call=t.sample, at=w.get("at"))
        t.check((o.n_qubits, [shape(g) for g in o.ops]) == w["before"], "an interrupted call changed immutable operations", got=repr(o), **info)
        t.check(same(o.to_circuit().run(), gen.build(Circuit, 0, ops).run()), "operations run differently after an interrupted call", **info)
        t.check(same(circuit_to_unitary(w["c"]), circuit_to_unitary(gen.build(Circuit, 0, ops))), "the unitary differs after an interrupted call", **info)
        t.check(same(w["v"], v) or same(w["v"], v * (abs(v[2]) / v[2])), "an interrupted phase removal left the vector half-changed", got=w["v"], **info)
        t.check(to_inttuple({"01": 1, "10": 2}) == {(0, 1): 1, (1, 0): 2}, "bit tuples are wrong after an interrupted call", **info)
        t.ev("repeated")
    attack(t, what, build, op, judge)
    t.ev("on_ops")


def case(t, kind):
    globals()["case_" + kind](t)
