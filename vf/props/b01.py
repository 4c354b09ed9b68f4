"""B01: trace monitor in generated custom backends."""
import copy
import itertools
import math

import numpy as np
from blueqat import BlueqatGlobalSetting, Circuit
from blueqat.backends.backendbase import Backend
from blueqat.gate import OneQubitGate

from .. import gen, ref

RULE = ("backends with random subsets of actions (every gate that has no decomposition is always included, unless the case is about a missing action), run on random circuits; the trace of action "
        "calls must be the concatenation of what each gate gives alone, natively implemented gates unchanged and in place, the others a product equal up to global phase; pre-/post-processing, "
        "context passing (of any type of context) and arguments are recorded; user-defined gates made of gates made of gates; distinct = action set and structure")
REQUIRED = ["traces_compared", "native_gates", "decomposed_gates", "missing_action_raised", "postprocess_once", "args_passed", "nested_decomposition", "user_gates_expanded", "plain_contexts", "preprocessed_gates", "flattened", "default_processing", "errors_propagate", "copied_backends"]
BASE = ["x", "y", "z", "h", "rx", "ry", "rz", "u3", "cx", "cz", "ccz", "measure", "reset"]      # no decomposition exists
OPT = ["i", "t", "tdg", "s", "sdg", "phase", "u1", "u2", "cy", "ch", "crx", "cry", "crz", "cphase", "cu1", "cu2", "cu3", "swap", "rxx", "ryy", "rzz", "ccx", "cswap"]
ALL = BASE + OPT


class Ctx:
    """An immutable context: each action must be given what the previous one returned."""

    def __init__(self, prev, call):
        self.prev, self.call = prev, call

    def trace(self):
        out, c = [], self
        while c.prev is not None:
            out.append(c.call)
            c = c.prev
        return out[::-1]


def make_backend(actions, record):
    class B(Backend):
        def _preprocess_run(self, gates, n_qubits, args, kwargs):
            record.append(("pre", n_qubits, args, dict(kwargs), len(gates)))
            return gates, Ctx(None, None)

        def _postprocess_run(self, ctx):
            record.append(("post", ctx))
            return ("result", ctx.trace())

    def action(name):
        def f(self, g, ctx):
            if not isinstance(ctx, Ctx):
                raise AssertionError("an action received something that no action returned as context")
            record.append(("gate", g.lowername, name))
            return Ctx(ctx, g)
        return f
    for a in actions:
        setattr(B, "gate_" + a, action(a))
    return B


def ops_of(trace):
    return [(g.lowername, tuple(g.params), g.targets) for g in trace]


def plan(tier):
    k = 6 if tier == "quick" else 25
    return [("rand", 700 * k), ("single", len(OPT) * (6 if tier == "quick" else 60)), ("missing", 250 * k), ("custom", 250 * k), ("context", 150 * k), ("raising", 60 * k), ("copied", 60 * k)]


def run(t, B, record, c, args=(), kw=None):
    kw = kw or {}
    record.clear()
    r = c.run(*args, backend=B(), **kw)
    pres = [x for x in record if x[0] == "pre"]
    posts = [x for x in record if x[0] == "post"]
    t.check(len(pres) == 1 and record[0][0] == "pre", "pre-processing did not run exactly once, first", record=record[:3])
    t.check(len(posts) == 1 and record[-1][0] == "post", "post-processing did not run exactly once, last", record=record[-3:])
    t.ev("postprocess_once")
    t.check(isinstance(r, tuple) and r[0] == "result", "the run does not return what post-processing returned", got=r)
    t.check(pres[0][1] == c.n_qubits and pres[0][2] == tuple(args) and pres[0][3] == kw, "pre-processing received other arguments", got=pres[0], args=args, kwargs=kw)
    if args or kw:
        t.ev("args_passed")
    calls = [x for x in record if x[0] == "gate"]
    t.check([x[1] for x in calls] == [g.lowername for g in r[1]], "the context was not passed through every action and to post-processing",
            calls=[x[1] for x in calls], seen=[g.lowername for g in r[1]])
    for _, low, name in calls:
        t.check(low == name, "an action was called with another gate", got=low, action=name)
    return r[1]


def case(t, kind):
    rng = t.rng
    record = []
    if kind == "missing":
        return missing(t, rng, record)
    if kind == "custom":
        return custom(t, rng)
    if kind == "context":
        return context(t, rng)
    if kind == "raising":
        return raising(t, rng, record)
    if kind == "copied":
        return copied(t, rng, record)
    if kind == "single":
        name = OPT[t.idx % len(OPT)]
        actions = BASE + [a for a in OPT if a != name and rng.random() < .4]
        n = rng.randint(ref.arity(name), 4)
        ops = [(name, gen.gen_params(rng, name), gen.gen_target(rng, name, n))]
        ops, n = gen.make_valid(ops, n)
        n0 = n
    else:
        actions = BASE + [a for a in OPT if rng.random() < rng.choice([.1, .5, .9])]
        n0, ops, n = gen.program(rng, nmax=4, maxops=10, nonunitary=.08)
    B = make_backend(actions, record)
    c = gen.build(Circuit, n0, ops, rng)
    t.check(c.n_qubits == n, "register", got=c.n_qubits, expected=n)
    args = rng.choice([(), (), (1, "a"), (None,)])
    kw = rng.choice([{}, {}, {"shots": 5, "foo": [1]}, {"returns": "x"}])
    trace = run(t, B, record, c, args, kw)
    # compositionality: the trace is the concatenation of the single gates' traces, each right by itself
    pos = 0
    for o, g in zip(ops, c.ops):
        one = Circuit(n)
        gen.apply_op(one, o)
        low = ref.canon(o[0])
        alone = run(t, B, record, one)
        seg = trace[pos:pos + len(alone)]
        pos += len(alone)
        t.check([(x, p, repr(q)) for x, p, q in ops_of(seg)] == [(x, p, repr(q)) for x, p, q in ops_of(alone)], "a gate is decomposed differently, out of order or more than once within the circuit",
                circuit=gen.show(n0, ops), gate=gen.show(n, [o]), actions=sorted(actions), got=[str(x) for x in seg], alone=[str(x) for x in alone])
        if low in actions:
            t.check(len(alone) == 1 and alone[0].lowername == low and tuple(map(float, alone[0].params)) == tuple(map(float, o[1]))
                    and ref.resolve(o[0], alone[0].targets, n) == ref.resolve(o[0], o[2], n),
                    "an implemented gate was not passed on once with its targets and parameters", gate=gen.show(n, [o]), got=[str(x) for x in alone])
            t.ev("native_gates")
        else:
            bad = [x.lowername for x in alone if x.lowername not in actions]
            t.check(not bad, "a decomposition uses an action the backend does not have", got=bad)
            m = max([n] + [ref.max_index(x.targets) + 1 for x in alone])
            t.check(m == n, "a decomposition acts outside the register", gate=gen.show(n, [o]), got=[str(x) for x in alone])
            got = ref.unitary(ops_of(alone), n)
            want = ref.unitary([o], n)
            t.check(ref.same_up_to_phase(got, want, 1e-9), "a decomposition is not the gate up to global phase", gate=gen.show(n, [o]), got=[str(x) for x in alone], actions=sorted(actions))
            t.ev("decomposed_gates")
            if low in ("cu2", "cphase", "cswap", "t", "s", "rxx", "u1") and len(alone) > 1 or low in ("t", "tdg", "s", "sdg") and "phase" not in actions:
                t.ev("nested_decomposition")
    t.check(pos == len(trace), "the backend received more calls than its gates give", got=[str(x) for x in trace[pos:]], circuit=gen.show(n0, ops))
    t.ev("traces_compared")
    # the numpy simulator and a second run see the same circuit (the run did not consume or change it)
    if rng.random() < .2:
        again = run(t, B, record, c)
        t.check([str(x) for x in again] == [str(x) for x in trace], "a second run gives another trace", circuit=gen.show(n0, ops))
    t.key(tuple(sorted(set(actions) - set(BASE))), n, gen.structure(ops))
    t.sample = f"actions without {sorted(set(OPT) - set(actions))[:6]}...: {gen.show(n0, ops)}"


class Odd(OneQubitGate):
    lowername = "vf_odd"


def missing(t, rng, record):
    """A gate that can neither be performed nor decomposed must not be skipped."""
    n = rng.randint(1, 3)
    which = rng.choice(["base", "base", "custom", "needs"])
    pre = [("x", (), 0), ("h", (), n - 1)]
    if which == "base":
        drop = rng.choice([b for b in BASE if b not in ("ccz", "x", "h") and ref.arity(b) <= n])
        op = (drop, gen.gen_params(rng, drop), gen.gen_target(rng, drop, n, rich=False))
        actions = [a for a in ALL if a != drop and a not in OPT]
    elif which == "needs":
        op = rng.choice([("t", (), 0), ("u2", (.1, .2), 0), ("u1", (.3,), 0), ("phase", (.4,), 0), ("sdg", (), 0)])
        actions = ["x", "h", "cx"]
        drop = op[0]
    else:
        BlueqatGlobalSetting.register_gate("vf_odd", Odd, allow_overwrite=True)
        op, actions, drop = ("vf_odd", (), 0), ALL, "vf_odd"
    B = make_backend(actions, record)
    c = Circuit(n)
    for o in pre[:rng.randint(0, 2)]:
        gen.apply_op(c, o)
    getattr(c, op[0])(*op[1])[op[2]] if op[1] else getattr(c, op[0])[op[2]]
    try:
        r = c.run(backend=B() if which != "custom" or rng.random() < .5 else "numpy")
    except Exception:
        t.ev("missing_action_raised")
        t.key("missing", drop, len(pre))
        t.sample = f"{drop} without action raises"
        return
    t.fail("a gate with neither action nor decomposition was skipped", gate=str(op), result=r)


def raising(t, rng, record):
    """An error inside an action is the caller's to see; it does not mean that the action is missing."""
    n = rng.randint(2, 3)
    n, ops, _ = gen.program(rng, nmax=n, maxops=5)
    actions = BASE + [a for a in OPT if rng.random() < .6]
    err = rng.choice([AttributeError, AttributeError, NotImplementedError, KeyError, TypeError, ValueError, StopIteration, RuntimeError])("from the action")
    c = gen.build(Circuit, n, ops, rng)
    B = make_backend(actions, record)
    calls = [g.lowername for g in run(t, B, record, c)]
    if not calls:
        return
    bad = rng.choice(calls)

    def broken(self, g, ctx):
        record.append(("gate", g.lowername, bad))
        raise err
    setattr(B, "gate_" + bad, broken)
    record.clear()
    try:
        r = c.run(backend=B())
    except Exception as e:
        t.check(e is err or e.__cause__ is err or e.__context__ is err, "another error than the action's came out", circuit=gen.show(n, ops), error=repr(e), raised=repr(err))
    else:
        t.fail("an error raised inside an action was swallowed", circuit=gen.show(n, ops), action=bad, error=repr(err), got=repr(r))
    got = [x[1] for x in record if x[0] == "gate"]
    t.check(got == calls[:calls.index(bad) + 1], "after an error inside an action, the backend was given something else", circuit=gen.show(n, ops), got=got, expected=calls[:calls.index(bad) + 1])
    t.check(not any(x[0] == "post" for x in record), "post-processing ran although an action failed", circuit=gen.show(n, ops))
    t.ev("errors_propagate")
    t.key("raising", bad, type(err).__name__, gen.structure(ops))
    t.sample = f"{type(err).__name__} in {bad}: {gen.show(n, ops)}"


def copied(t, rng, record):
    """A circuit's copy runs on a copy of its backend, whose own actions are called."""
    n = rng.randint(1, 3)
    n, ops, _ = gen.program(rng, nmax=n, maxops=5)
    actions = BASE + [a for a in OPT if rng.random() < .5]
    plain = make_backend(actions, record)
    style = rng.choice(["shallow", "shallow", "new", "default"])

    class B(Backend):
        def __init__(self):
            self.seen = []

        def copy(self):
            if style == "default":
                return super().copy()
            new = copy.copy(self) if style == "shallow" else B()
            new.seen = []
            return new

        def _preprocess_run(self, gates, n_qubits, args, kwargs):
            self.seen = []
            return gates, self

        def _postprocess_run(self, ctx):
            return self, self.seen

    def action(name):
        def f(self, g, ctx):
            if ctx is not self:
                raise AssertionError("an action of another backend object was called")
            self.seen.append(g)
            return ctx
        return f
    for a in actions:
        setattr(B, "gate_" + a, action(a))
    name = "vf_copied"
    BlueqatGlobalSetting.register_backend(name, B, allow_overwrite=True)
    try:
        pool = [gen.build(Circuit, n, ops, rng)]
        used = {}
        for _ in range(rng.randint(3, 8)):
            c = rng.choice(pool)
            r = rng.random()
            if r < .4:
                pool.append(c.copy() if r < .3 else c + Circuit())
                continue
            if r < .6:
                c.x[rng.randrange(max(n, 1))]
            b, seen = c.run(backend=name)
            me = pool.index(c)
            t.check(used.setdefault(id(b), (me, b))[0] == me, "two circuits run on the same backend object", circuit=repr(c))
            want = run(t, plain, record, c)
            t.check([(x, p, repr(q)) for x, p, q in ops_of(seen)] == [(x, p, repr(q)) for x, p, q in ops_of(want)], "a copied circuit's backend was given other gates", circuit=repr(c), got=[str(g) for g in seen], expected=[str(g) for g in want])
            t.ev("copied_backends")
    finally:
        BlueqatGlobalSetting.unregister_backend(name)
    t.key("copied", style, len(pool), gen.structure(ops))
    t.sample = f"{style} copies: {gen.show(n, ops)}"


def user_gate(name, body, seen):
    """A user's gate class; body(n) lists what it consists of, as (name, params, target) with names of gates or user gates."""
    class U(OneQubitGate):
        lowername = name

        def fallback(self, n_qubits):
            seen.append((name, n_qubits))
            out = []
            for nm, ps, tg in body(n_qubits):
                c = Circuit(n_qubits)
                getattr(c, nm)(*ps)[tg]
                out += c.ops
            return out
    return U


def custom(t, rng):
    """User-defined gates made of gates made of gates, whose decompositions depend on the size of the register."""
    n = rng.randint(2, 5)
    depth = rng.randint(1, 4)
    seen, bodies, names = [], {}, []
    for d in range(depth):
        name = f"vf_user{d}"
        parts = []
        for _ in range(rng.randint(0, 4)):
            if names and rng.random() < .5:
                parts.append(("user", rng.choice(names), rng.choice([0, slice(None), rng.randrange(n)])))
            else:
                parts.append(("lib", rng.choice(["x", "cy", "cz", "rz", "t", "swap", "i", "cphase", "ccx"]), rng.choice(["all", "last", "first", "pair"])))
        names.append(name)

        def body(m, parts=parts):
            out = []
            for k, nm, where in parts:
                if k == "user":
                    out.append((nm, (), where))
                elif nm == "ccx":
                    if m >= 3:
                        out.append((nm, (), (0, m - 1, 1)))
                elif ref.arity(nm) == 2:
                    out.append((nm, (.3,) if nm == "cphase" else (), (slice(None, -1), slice(1, None)) if where == "all" else (0, m - 1)))
                else:
                    out.append((nm, (.7,) if nm == "rz" else (), {"all": slice(None), "last": -1, "first": 0, "pair": (0, m - 1)}[where]))
            return out
        bodies[name] = body
        BlueqatGlobalSetting.register_gate(name, user_gate(name, body, seen), allow_overwrite=True)
    native = [x for x in names if rng.random() < .2]
    actions = BASE + [a for a in OPT if rng.random() < .5] + native
    lib = [a for a in actions if a in OPT]

    def expand(ops, m):
        out = []
        for nm, ps, tg in ops:
            if nm in actions:
                out.append((nm, ps, tg))
            elif nm in bodies:
                calls.append((nm, m))
                out += expand(bodies[nm](m), m)
            else:
                # a library gate: what it gives alone (judged by the other kinds)
                record = []
                one = Circuit(m)
                getattr(one, nm)(*ps)[tg]
                out += ops_of(run(t, make_backend(BASE + lib, record), record, one))
        return out
    prog = [(rng.choice(names), (), rng.choice([0, slice(None), n - 1])) if rng.random() < .5 else ("h", (), rng.randrange(n)) for _ in range(rng.randint(1, 5))]
    c = Circuit(n)
    for nm, ps, tg in prog:
        getattr(c, nm)(*ps)[tg] if ps else getattr(c, nm)[tg]
    record, calls = [], []
    got = ops_of(run(t, make_backend(actions, record), record, c))
    ran = list(seen)
    want = expand(prog, n)
    t.check([(x, tuple(map(float, y)), repr(z)) for x, y, z in got] == [(ref.canon(x) if x not in names else x, tuple(map(float, y)), repr(z)) for x, y, z in want],
            "user-defined gates are not decomposed in place, in order, down to the backend's actions", program=prog, actions=sorted(actions), got=[str(x) for x in got], expected=[str(x) for x in want])
    t.check(all(m == n for _, m in ran), "a decomposition was asked for another size of register", got=ran, n_qubits=n)
    t.check(set(ran) == set(calls), "another set of decompositions was used", got=ran, expected=calls)
    if calls:
        t.ev("user_gates_expanded")
    t.key("custom", n, repr(prog), len(want))
    t.sample = f"user gates over {n} qubits, depth {depth}: {len(want)} actions"


def context(t, rng):
    """Contexts of any type, the empty ones included, are passed on as they are."""
    n = rng.randint(1, 3)
    n, ops, _ = gen.program(rng, nmax=n, maxops=6, nonunitary=.1)
    actions = BASE + [a for a in OPT if rng.random() < .5]
    passed, problems = [], []
    calls, given = [], []
    mode = rng.choice(["same", "same", "reversed", "half", "double", "tuple", "flat", "empty"])

    def fresh():
        return rng.choice([lambda: 0, lambda: "", lambda: [], lambda: {}, lambda: (), lambda: None, lambda: False, lambda: 0.0, lambda: np.zeros(2), lambda: np.array([]),
                           lambda: object(), lambda: "x", lambda: 17, lambda: NotImplemented, lambda: Exception("value")])()

    class B(Backend):
        def _preprocess_run(self, gates, n_qubits, args, kwargs):
            passed.append(fresh())
            gates = list(gates)
            if mode == "flat":
                gates = self._resolve_fallback(gates, n_qubits)
            new = {"reversed": gates[::-1], "half": gates[::2], "double": gates + gates, "empty": []}.get(mode, gates)
            given.extend(new)
            return {"tuple": tuple}.get(mode, list)(new), passed[-1]

        def _postprocess_run(self, ctx):
            if ctx is not passed[-1]:
                problems.append(("post", repr(ctx), repr(passed[-1])))
            return passed[0]

    def action(self, g, ctx):
        calls.append(g)
        if ctx is not passed[-1]:
            problems.append((g.lowername, repr(ctx), repr(passed[-1])))
        passed.append(fresh())
        return passed[-1]
    for a in actions:
        setattr(B, "gate_" + a, action)
    c = gen.build(Circuit, n, ops, rng)
    if rng.random() < .2:
        return defaults(t, rng, B, c, actions, n, ops, passed, calls)
    r = c.run(backend=B())
    # the gates that were run are those pre-processing returned: each native one by itself, in order
    native = [g for g in given if g.lowername in actions]
    ids = {id(g) for g in native}
    t.check([id(g) for g in calls if id(g) in ids] == [id(g) for g in native] and (len(calls) == len(native) or len(native) < len(given)),
            "the gates run are not those that pre-processing returned", mode=mode, circuit=gen.show(n, ops), returned=[str(g) for g in given], got=[str(g) for g in calls])
    t.ev("preprocessed_gates")
    if mode == "flat":
        # flattening beforehand gives the gates that would be reached one by one
        record = []
        want = run(t, make_backend(actions, record), record, c)
        t.check([(x, p, repr(q)) for x, p, q in ops_of(calls)] == [(x, p, repr(q)) for x, p, q in ops_of(want)], "resolving the decompositions beforehand gives other gates",
                circuit=gen.show(n, ops), actions=sorted(actions), got=[str(g) for g in calls], expected=[str(g) for g in want])
        t.ev("flattened")
    t.check(not problems, "an action or post-processing was given another context than the previous action returned", circuit=gen.show(n, ops), problems=problems[:3])
    t.check(r is passed[0], "the run does not return what post-processing returned", got=r, expected=passed[0])
    t.ev("plain_contexts")
    t.key("context", n, gen.structure(ops), len(passed))
    t.sample = f"plain contexts: {gen.show(n, ops)}"


def defaults(t, rng, B, c, actions, n, ops, passed, calls):
    """Without pre- or post-processing of its own, a backend runs all gates, starting with no context, and returns nothing."""
    pre, post = rng.choice([(False, False), (True, False), (False, True)])
    if not pre:
        del B._preprocess_run
        passed.append(None)
    if not post:
        del B._postprocess_run
    b = B()
    if rng.random() < .5:
        b.make_cache(list(c.ops), c.n_qubits)
        t.check(not calls, "make_cache ran the gates on a backend that has no cache", circuit=gen.show(n, ops))
    start = len(passed)
    r = c.run(backend=b)
    info = dict(circuit=gen.show(n, ops), actions=sorted(actions), preprocessing=pre, postprocessing=post)
    first = passed[0]
    t.check(post or r is None, "a backend without post-processing returns something", got=repr(r), **info)
    t.check(not post or r is first, "the run does not return what post-processing returned", got=repr(r), expected=repr(first), **info)
    record = []
    if not pre:
        want = run(t, make_backend(actions, record), record, c)
        t.check([(x, p, repr(q)) for x, p, q in ops_of(calls)] == [(x, p, repr(q)) for x, p, q in ops_of(want)], "without pre-processing other gates are run", got=[str(g) for g in calls], expected=[str(g) for g in want], **info)
        t.check(len(passed) - start == len(calls), "contexts", **info)
    t.ev("default_processing")
    t.key("defaults", n, gen.structure(ops), pre, post)
    t.sample = f"default pre-/post-processing: {gen.show(n, ops)}"
