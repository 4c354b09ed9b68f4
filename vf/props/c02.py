"""C02: index expressions (reference resolution vs state, recorded targets and register size)."""
import numpy as np
from blueqat import Circuit
from blueqat.backends.backendbase import Backend

from .. import gen, ref

RULE = ("random index expressions (ints, negatives, numpy ints, slices with any start/stop/step, tuples of these, repeated qubits) on registers "
        "of 1-9 qubits, some grown after the gate was appended; selections are observed by a recording backend and through states; invalid pairs must raise; "
        "non-trivial = selection is not a single in-range integer")
REQUIRED = ["wide_register", "selection_recorded", "register_growth_checked", "invalid_rejected", "state_compared", "exhaustive_slice", "exported_targets"]


class Recorder(Backend):
    """Records which qubits each gate is asked to act on."""

    def _preprocess_run(self, gates, n_qubits, args, kwargs):
        return gates, (n_qubits, [])

    def _postprocess_run(self, ctx):
        return ctx

    def _one(self, gate, ctx):
        ctx[1].append((gate.lowername, [(int(q),) for q in gate.target_iter(ctx[0])]))
        return ctx

    def _two(self, gate, ctx):
        ctx[1].append((gate.lowername, [(int(a), int(b)) for a, b in gate.control_target_iter(ctx[0])]))
        return ctx

    gate_x = gate_h = gate_measure = gate_rx = gate_i = _one
    gate_cx = gate_swap = gate_crz = _two


def plan(tier):
    k = 7 if tier == "quick" else 40
    return [("select", 1500 * k), ("grow", 500 * k), ("slices", 60), ("invalid", 700 * k), ("state", 400 * k)]


ONE = ["x", "h", "measure", "rx", "i"]
TWO = ["cx", "swap", "crz"]


def wild(rng, n):
    """An index expression without regard to validity."""
    r = rng.random()
    if r < 0.35:
        return rng.randint(-n - 1, n)
    if r < 0.45:
        return np.int64(rng.randint(-n, n - 1))
    s = gen.gen_slice(rng, n + 1)
    if rng.random() < 0.2:
        s = slice(s.start, s.stop, rng.choice([4, -3, -4, 7]))
    if rng.random() < 0.1 and s.start is not None:
        s = slice(np.int64(s.start), s.stop, s.step)
    return s


def case(t, kind):
    rng = t.rng
    if kind == "slices":
        # every slice with bounds in -n-1..n+1 and steps in -3..3 on a register of n qubits (n = 1..5), split over the cases
        n = 1 + t.idx % 5
        part = t.idx // 5
        rangev = [None] + list(range(-n - 1, n + 1))
        k = 0
        for a in rangev:
            for b in rangev:
                for st in (None, 1, 2, 3, -1, -2, -3):
                    k += 1
                    if k % 12 != part % 12:
                        continue
                    sl = slice(a, b, st)
                    c = Circuit(n).x[sl]
                    m = max(n, ref.max_index(sl) + 1)
                    t.check(c.n_qubits == m, "register size after a slice", slice=sl, n=n, got=c.n_qubits, expected=m)
                    got = c.run(backend=Recorder())[1][0][1]
                    t.check(got == [(q,) for q in range(m)[sl]], "slice selected other qubits", slice=sl, register=m, got=got)
                    t.ev("exhaustive_slice")
        t.key("slices", n, part)
        t.sample = f"all slices on {n} qubits, part {part}"
        return
    if kind == "select":
        n = rng.randint(1, 9) if rng.random() < .93 else rng.randint(10, 90)
        n0 = rng.choice([0, n, rng.randint(0, n)])
        if n > 9:
            t.ev("wide_register")
        ops = []
        for _ in range(rng.randint(1, 5)):
            two = n > 1 and rng.random() < 0.4
            name = rng.choice(TWO if two else ONE)
            if two:
                tg = gen.gen_target(rng, name, n)
            else:
                tg = wild(rng, n) if rng.random() < 0.4 else tuple(wild(rng, n) for _ in range(rng.randint(0, 4)))
            ops.append((name, (0.5,) if name in ("rx", "crz") else (), tg))
        ops, n = gen.make_valid(ops, n0)
        if not ops:
            return
        c = Circuit(n0)
        m = n0
        for op in ops:
            gen.apply_op(c, op)
            m = max(m, ref.max_index(op[2]) + 1)
            t.check(c.n_qubits == m, "register size after applying a gate", op=op, got=c.n_qubits, expected=m)
            t.ev("register_growth_checked")
        nn, got = c.run(backend=Recorder())
        want = [(ref.canon(o[0]), ref.resolve(o[0], o[2], n)) for o in ops]
        t.check(nn == n, "qubit count given to the backend", got=nn, expected=n)
        t.ev("selection_recorded", len(ops))
        t.check(got == want, "gates act on other qubits than their index expressions denote",
                circuit=gen.show(n0, ops), got=got, expected=want)
        t.sample = gen.show(n0, ops)
        t.key(n, tuple((o[0], repr(o[2])) for o in ops))
        return
    if kind == "grow":
        # late binding: slices and negatives are read against the final register
        n = rng.randint(1, 4)
        ops = gen.gen_ops(rng, n, rng.randint(1, 4), ["x", "h", "cx", "swap", "ry", "crx"])
        big = n + rng.randint(0, 3)
        ops2 = ops + [("i", (), big - 1)] + gen.gen_ops(rng, big, rng.randint(0, 3), ["x", "cx", "ry"])
        n0 = rng.randint(0, n)
        ops2, nf = gen.make_valid(ops2, n0)
        c = gen.build(Circuit, n0, ops2)
        if rng.random() < 0.5:
            try:
                c.run()      # running in between must not freeze the resolution (checked against the final register)
            except Exception:
                t.fail("run raised on a valid circuit", circuit=gen.show(n0, ops2))
        t.check(c.n_qubits == nf, "register size", got=c.n_qubits, expected=nf, circuit=gen.show(n0, ops2))
        got = c.run()
        want = ref.run(ops2, nf)
        t.ev("state_compared")
        t.check(ref.same(got, want), "late-bound selections: wrong state", circuit=gen.show(n0, ops2), got=got, expected=want)
        # growth by concatenation and by a bare larger register too
        extra = rng.randint(0, 2)
        d = c + Circuit(nf + extra)
        ops3 = [o for o in ops2]
        if all(ref.resolve(o[0], o[2], nf + extra) is not None for o in ops3):
            t.check(ref.same(d.run(), ref.run(ops3, nf + extra)), "selections after growing by concatenation",
                    circuit=gen.show(nf + extra, ops3))
            t.ev("state_compared")
        t.sample = gen.show(n0, ops2)
        t.key("grow", nf, gen.structure(ops2))
        return
    if kind == "state":
        n0, ops, n = gen.program(rng, nmax=6, maxops=6, names=["x", "y", "h", "t", "ry", "u2", "cx", "cz", "swap", "cry", "cu1", "rzz", "ccx", "cswap", "tdg"])
        c = gen.build(Circuit, n0, ops, rng)
        t.check(ref.same_up_to_phase(c.run(), ref.run(ops, n)), "wrong state", circuit=gen.show(n0, ops))
        t.ev("state_compared")
        # the exporter and the shot register see the same qubits
        pure = [o for o in ops if ref.canon(o[0]) not in ("rzz",)]
        marks = Circuit(n)
        tgt = gen.gen_target(rng, "x", n) if n else ()
        if n and ref.max_index(tgt) < n:
            marks.x[tgt].measure[:]
            want = [0] * n
            for (q,) in ref.resolve("x", tgt, n):
                want[q] ^= 1
            cnt = marks.run(shots=2)
            t.check(dict(cnt) == {"".join(map(str, want)): 2}, "measured bits do not match the selected qubits", target=tgt, n=n, got=cnt)
            mt = gen.gen_target(rng, "x", n)
            if ref.max_index(mt) < n:
                cnt = Circuit(n).x[:].measure[mt].run(shots=1)
                w2 = [0] * n
                for (q,) in ref.resolve("x", mt, n):
                    w2[q] = 1
                t.check(dict(cnt) == {"".join(map(str, w2)): 1}, "measurement recorded other qubits", target=mt, n=n, got=cnt)
                lines = Circuit(n).y[mt].to_qasm(output_prologue=False).split("\n")
                got = [l for l in lines if l]
                t.check(got == [f"y q[{q}];" for (q,) in ref.resolve("y", mt, n)], "export names other qubits", target=mt, n=n, got=got)
                t.ev("exported_targets")
        t.sample = gen.show(n0, ops)
        t.key("state", n, gen.structure(ops))
        return
    # invalid selections: somewhere between application and result an error must appear, and no result
    n = rng.randint(1, 6)
    what = rng.choice(["same", "count", "notpair", "range", "three", "type", "range2", "same_slice"])
    name = rng.choice(["cx", "cz", "swap", "crx", "cphase", "cu3", "rzz", "cy"])
    ps = tuple(0.3 for _ in range(ref.nparams(name)))
    if what == "same":
        q = rng.randrange(n)
        tg = (q, rng.choice([q, q - n]))
    elif what == "same_slice":
        if n < 2:
            return
        a = rng.randrange(n - 1)
        tg = (slice(a, n), slice(a, n)) if rng.random() < .5 else (slice(None, None, -1), slice(None)) if n % 2 else (slice(None), slice(None))
    elif what == "count":
        if n < 3:
            return
        tg = rng.choice([(slice(0, 2), 2), (0, slice(1, 3)), (slice(0, 1), slice(1, 3)), (slice(0, 0), 1), (slice(None), slice(1, None)), (0, slice(n, n))])
    elif what == "notpair":
        tg = rng.choice([0, slice(None), (0,), (0, 1, 2), ()])
    elif what == "three":
        name, ps, tg = "ccx", (), rng.choice([(0, 1), (0,), 0, (0, 1, 2, 3)])
        if tg == 0:
            tg = (0,)
    elif what == "type":
        name = rng.choice(["x", "cx", "measure"])
        ps = ()
        bad = rng.choice([1.5, "a", None, 0.0, [0]])
        tg = bad if name != "cx" else (bad, 0)
    elif what == "range":
        name, ps = rng.choice([("x", ()), ("i", ()), ("measure", ()), ("rz", (0.1,)), ("reset", ()), ("t", ())])
        tg = rng.choice([-n - 1, -n - rng.randint(1, 5), (0, -n - 1)])
    else:
        tg = (0, -n - 1 - rng.randint(0, 3))
    pre = gen.gen_ops(rng, n, 2, ["x", "h"], rich=False)
    c = gen.build(Circuit, n, pre)
    backend = rng.choice(["numpy", "numpy", "qasm_output", "sympy_unitary"] if n <= 3 else ["numpy", "qasm_output"])
    if what == "three" or (backend == "sympy_unitary" and name in ref.NONUNITARY):     # sympy skips measurement and reset
        backend = "numpy"
    try:
        gen.apply_op(c, (name, ps, tg))
        if what not in ("type", "three"):
            t.check(c.n_qubits == max(n, ref.max_index(tg) + 1), "register size after an invalid selection", op=(name, ps, tg), got=c.n_qubits, before=n)
        if ref.n_after([(name, ps, tg)], n) != n and what not in ("notpair", "three"):
            # growth may have made the selection valid
            if ref.resolve(name, tg, c.n_qubits) is not None:
                return
        res = c.run(backend=backend)
    except (ValueError, TypeError, IndexError, AttributeError):
        t.ev("invalid_rejected")
        t.key("invalid", what, name, repr(tg), n, backend)
        t.sample = f"Circuit({n}).{name}[{tg}] rejected ({what})"
        return
    t.fail("an invalid selection produced a result", op=(name, ps, tg), n=n, backend=backend, result=res)
