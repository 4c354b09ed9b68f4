"""U02: experimental Ops lists are immutable values that mean the same as circuits; circuit_to_unitary is the circuit's matrix."""
import numpy as np
from blueqat import Circuit
from blueqat.experimental import operations
from blueqat.experimental.operations import Ops
from blueqat.experimental.utils import circuit_to_unitary

from .. import gen, ref
from ..history import dagger_op
from .c05 import overlapping

RULE = ("histories over a pool of operation lists (append from any earlier version, reused gate wrappers, +, +=, conjugate, conversion, macros, mutation of converted circuits), every "
        "version re-judged after every step against a stateless model; random programs (<=5 qubits) turned into matrices; distinct = structure")
REQUIRED = ["append", "concat", "dagger", "to_circuit", "circuit_mutated", "old_versions_unchanged", "semantics", "branched", "wrapper_reused", "wrappers_interleaved", "macro", "unknown_name", "matrix", "matrix_empty", "matrix_after_runs", "long_list"]
NAMES = ["i", "x", "y", "z", "h", "t", "tdg", "s", "sdg", "cz", "cx", "cnot", "cy", "ch", "rx", "ry", "rz", "r", "phase", "crx", "cry", "crz", "cr", "cphase", "u1", "u2", "u3", "cu1", "cu2", "cu3",
         "swap", "ccx", "toffoli"]


def plan(tier):
    k = 4 if tier == "quick" else 25
    return [("hist", 420 * k), ("matrix", 500 * k), ("each", len(NAMES) * 4 * k)]


def sig(gates):
    return [(g.lowername, repr(g.targets), tuple(g.params)) for g in gates]



def judge(t, o, n, ops, run):
    """o must be the list of `ops` on n qubits."""
    t.check(isinstance(o, Ops) and o.n_qubits == n and isinstance(o.ops, tuple) and len(o.ops) == len(ops), "an operation list has another register or length",
            got=repr(o), expected=gen.show(n, ops))
    if not run:
        return
    before = sig(o.ops)
    c = o.to_circuit()
    t.check(isinstance(c, Circuit) and c.n_qubits == n and sig(c.ops) == before, "the converted circuit has another register or other gates", got=repr(c), expected=repr(o))
    t.ev("to_circuit")
    if n:
        pre = gen.scramble(t.rng, n)
        start = ref.run(pre, n)
        got = (gen.build(Circuit, n, pre) + c).run()
        t.check(ref.same(got, ref.run(ops, n, start), 1e-8), "the converted circuit does not do what the gates of the list do", got=got, ops=gen.show(n, ops), expected=ref.run(ops, n, start))
        t.ev("semantics")


def case(t, kind):
    rng = t.rng
    if kind == "matrix":
        if rng.random() < .03:
            m = circuit_to_unitary(Circuit())
            t.check(np.array_equal(m, [[1]]), "the matrix of the empty circuit is not [[1]]", got=m)
            t.ev("matrix_empty")
            t.key("empty", t.idx)
            return
        n0, ops, n = gen.program(rng, nmax=rng.choice([1, 2, 3, 4, 5]) if rng.random() < .98 else 7, maxops=15)
        c = gen.build(Circuit, n0, ops, rng)
        if not n:
            return
        t.sample = gen.show(n0, ops)
        if rng.random() < .4:
            c.run()
            t.ev("matrix_after_runs")
        before = sig(c.ops), c.n_qubits
        kw = {}
        if rng.random() < .3:
            kw["backend"] = "numpy"
        if rng.random() < .2:
            kw["shots"] = 1
        m = circuit_to_unitary(c, **kw)
        want = ref.unitary(ops, n)
        t.check(isinstance(m, np.ndarray) and m.shape == want.shape, "the matrix has another shape", circuit=t.sample, got=m)
        t.check(ref.same(m.ravel(), want.ravel(), 1e-8), "column b is not the circuit's output for basis state b", circuit=t.sample, got=m, expected=want)
        t.check((sig(c.ops), c.n_qubits) == before, "taking the matrix changed the circuit", circuit=t.sample)
        t.check(ref.same(c.run(), want[:, 0], 1e-8), "the circuit runs differently after taking its matrix", circuit=t.sample)
        t.ev("matrix")
        t.key("m", n, gen.structure(ops))
        return
    if kind == "each":
        name = NAMES[t.idx % len(NAMES)]
        a = ref.arity(name)
        n = a + rng.randint(0, 1)
        qs = tuple(rng.sample(range(n), a))
        ops = [(name, gen.gen_params(rng, name), qs[0] if a == 1 else qs)]
        o = gen.apply_op(Ops(n), ops[0], rng.choice([None, "kw", "call"]))
        t.sample = gen.show(n, ops)
        judge(t, o, n, ops, True)
        t.check(ref.same(circuit_to_unitary(o.to_circuit()).ravel(), ref.unitary(ops, n).ravel(), 1e-9), "a gate of the list has another matrix", circuit=t.sample)
        d = o.dagger()
        judge(t, d, n, [dagger_op(ops[0])], False)
        t.check(ref.same_up_to_phase((o + d).to_circuit().run(), ref.zero_state(n)), "list + conjugate is not the identity", circuit=t.sample)
        t.ev("dagger")
        t.key("each", name, qs, tuple(round(float(x), 1) for x in ops[0][1]))
        return
    n = rng.randint(1, 4)
    if t.idx % 60 == 7:       # a long list on a wide register
        n = rng.choice([4, 7, 9])
        size = rng.choice([60, 150, 300])
        o, ops, at = Ops(n) if rng.random() < .5 else Ops(), [], []
        k0 = o.n_qubits
        while len(ops) < size:
            name = rng.choice(NAMES)
            if rng.random() < .1 and ops:
                at.append((o, list(ops)))
                if len(ops) < size // 2 and rng.random() < .3:
                    o, ops = o + o, ops + ops
                    continue
            op = (name, gen.gen_params(rng, name), tuple(rng.sample(range(n), ref.arity(name))) if ref.arity(name) > 1 else rng.randrange(n))
            o = gen.apply_op(o, op, rng.choice([None, "kw", "call"]))
            ops.append(op)
        for p, ops2 in at + [(o, ops)]:
            judge(t, p, ref.n_after(ops2, k0), ops2, p is o)
        fresh = gen.build(Circuit, k0, ops)
        t.check(sig(o.ops) == sig(fresh.ops), "the gates of a long list are not the ones that were appended", got=repr(o)[:500], expected=repr(fresh)[:500])
        d = o.dagger()
        t.check(ref.same_up_to_phase((o + d).to_circuit().run(), ref.zero_state(o.n_qubits), 1e-8), "a long list + conjugate is not the identity", gates=len(ops))
        t.ev("long_list")
        t.key("long", n, size, t.idx)
        t.sample = f"{len(ops)} gates on {n} qubits"
        return
    pool = [(Ops(), 0, []), (Ops(n), n, [])]
    trace = []
    parents = []
    kept = []
    for _ in range(rng.randint(4, 14)):
        r = rng.random()
        i = rng.randrange(len(pool)) if rng.random() < .4 else len(pool) - 1
        o, k, ops = pool[i]
        if r < .55:
            name = rng.choice(NAMES)
            tgt = gen.gen_target(rng, name, n)
            if tgt is None:
                continue
            op = (name, gen.gen_params(rng, name), tgt)
            if rng.random() < .25:
                # one wrapper, several lists: each only gets its own gate
                w = getattr(o, name)(*op[1])
                tgt2 = gen.gen_target(rng, name, n)
                new2 = w[tgt2]
                new = w[tgt]
                op2 = (name, op[1], tgt2)
                pool.append((new2, ref.n_after([op2], k), ops + [op2]))
                t.ev("wrapper_reused")
                # two gates taken before either is applied, with parameters of their own
                ps = [gen.gen_params(rng, name), gen.gen_params(rng, name)]
                twin = Ops(*o) if rng.random() < .5 else o
                ws = [getattr(o, name)(*ps[0]), getattr(twin, name)(*ps[1])]
                for y in rng.sample([0, 1], 2):
                    op3 = (name, ps[y], tgt)
                    pool.append((ws[y][tgt], ref.n_after([op3], k), ops + [op3]))
                t.ev("wrappers_interleaved")
            else:
                new = gen.apply_op(o, op, rng.choice([None, "kw", "call"]))
            pool.append((new, ref.n_after([op], k), ops + [op]))
            if i in parents:
                t.ev("branched")
            parents.append(i)
            trace.append(("append", i, op))
            t.ev("append")
        elif r < .7:
            j = rng.randrange(len(pool))
            p, kk, ops2 = pool[j]
            if len(ops) + len(ops2) > 40:
                continue
            if rng.random() < .5:
                new = o + p
            else:
                new = o
                new += p
            pool.append((new, max(k, kk), ops + ops2))
            trace.append(("add", i, j))
            t.ev("concat")
        elif r < .8:
            if gen.make_valid(ops, k)[0] != ops or overlapping(ops, k):
                continue
            pool.append((o.dagger(), k, [dagger_op(x) for x in reversed(ops)]))
            trace.append(("dagger", i))
            t.ev("dagger")
        elif r < .92:
            c = o.to_circuit()
            if k and gen.make_valid(ops, k)[0] == ops:
                c.run()
            c.x[rng.randrange(6)]
            if rng.random() < .5:
                c.h[0].run(shots=2) if gen.make_valid(ops, c.n_qubits)[0] == ops else None
            if rng.random() < .3:
                c.ops.clear()
            trace.append(("mutate converted", i))
            kept.append(c)
            t.ev("circuit_mutated")
        elif r < .96:
            name = rng.choice(["qft_like", "nosuchgate", "X", "run"])
            try:
                getattr(o, name)
            except AttributeError:
                t.ev("unknown_name")
            else:
                t.fail("an unknown name was accepted", name=name)
        else:
            operations.GLOBAL_MACROS["vf_macro"] = lambda ops_, a, b=0: ops_.x[a].rz(b)[a]
            try:
                b = rng.uniform(-3, 3)
                a = rng.randrange(n)
                new = o.vf_macro(a, b=b)
            finally:
                del operations.GLOBAL_MACROS["vf_macro"]
            add = [("x", (), a), ("rz", (b,), a)]
            pool.append((new, ref.n_after(add, k), ops + add))
            trace.append(("macro", i))
            t.ev("macro")
        for q, (p, kk, ops2) in enumerate(pool):
            judge(t, p, kk, ops2, False)
        t.ev("old_versions_unchanged", len(pool))
    for p, kk, ops2 in pool:
        if gen.make_valid(ops2, kk)[0] == ops2:
            judge(t, p, kk, ops2, True)
            if ops2 and not overlapping(ops2, kk) and kk:
                d = p.dagger()
                start = gen.scramble(rng, kk)
                got = (gen.build(Circuit, kk, start) + (p + d).to_circuit()).run()
                t.check(ref.same_up_to_phase(got, ref.run(start, kk), 1e-8), "list + conjugate is not the identity", circuit=gen.show(kk, ops2), got=got)
        fresh = gen.build(Circuit, 8, ops2)
        t.check(sig(p.ops) == sig(fresh.ops), "the gates of a list are not the ones that were appended", got=repr(p), expected=repr(fresh))
    for o, k, ops in pool:
        judge(t, o, k, ops, False)
    t.sample = repr(trace)[:500]
    t.key("hist", repr(trace)[:2000])
