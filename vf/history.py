"""Histories over a pool of circuits, judged step by step against a stateless model.

The model of a circuit is (ops, n, own default backend).  What a run must return follows from the model alone,
whatever happened before to the circuit, its copies or the backend object it runs on.
"""
import copy
import math
from collections import Counter

import numpy as np
from blueqat import BlueqatGlobalSetting, Circuit
from blueqat.backends.numpy_backend import NumPyBackend
from blueqat.gate import OneQubitGate, RXGate, slicing

from . import gen, ref

ALT = "vf_alt_backend"
NAMES = ["x", "y", "z", "h", "t", "tdg", "s", "sdg", "rx", "ry", "rz", "phase", "u1", "u2", "u3", "cx", "cz", "cy", "ch", "crx", "cry",
         "crz", "cphase", "cu2", "cu3", "swap", "rxx", "ryy", "rzz", "ccx", "cswap", "i", "r", "cr", "cnot", "toffoli"]
ARMED = {"n": None}


def want_first(want, vec):
    """First non-negligible amplitude; None when what is negligible is not clear-cut."""
    k = np.nonzero(np.abs(want) > 1e-9)[0]
    return None if abs(want[k[0]]) < 1e-5 else vec[k[0]]


class Boom(Exception):
    pass


class FlakyRX(OneQubitGate):
    """An RX whose decomposition can be made to fail: a fault in the middle of a run."""
    lowername = "vf_flaky"

    def __init__(self, targets, theta, **kw):
        super().__init__(targets, (theta,), **kw)
        self.theta = theta

    def fallback(self, n_qubits):
        out = []
        for q in slicing(self.targets, n_qubits):
            if ARMED["n"] is not None:
                ARMED["n"] -= 1
                if ARMED["n"] <= 0:
                    ARMED["n"] = None
                    raise Boom()
            out.append(RXGate(q, self.theta))
        return out

    def dagger(self):
        return FlakyRX(self.targets, -self.theta, **self.kwargs)


class FlakyX(OneQubitGate):
    """An X whose target iteration can fail between two targets, inside the backend's kernel."""
    lowername = "x"

    def target_iter(self, n_qubits):
        for q in slicing(self.targets, n_qubits):
            yield q
            if ARMED["n"] is not None:
                ARMED["n"] -= 1
                if ARMED["n"] <= 0:
                    ARMED["n"] = None
                    raise Boom()

    def dagger(self):
        return self


def setup():
    BlueqatGlobalSetting.register_gate("vf_flaky", FlakyRX, allow_overwrite=True)
    BlueqatGlobalSetting.register_gate("vf_flakyx", FlakyX, allow_overwrite=True)
    BlueqatGlobalSetting.register_backend(ALT, NumPyBackend, allow_overwrite=True)
    ARMED["n"] = None


REFNAME = {"vf_flaky": "rx", "vf_flakyx": "x"}
LOWER = {"vf_flaky": "vf_flaky", "vf_flakyx": "x"}
INVERSE = {"t": "tdg", "tdg": "t", "s": "sdg", "sdg": "s"}
SELF = {"i", "x", "y", "z", "h", "cx", "cz", "cy", "ch", "swap", "ccx", "cswap", "vf_flakyx"}


def rop(op):
    """The op as the reference simulator knows it."""
    return (REFNAME.get(op[0], op[0]), op[1], op[2])


def rops(ops):
    return [rop(o) for o in ops]


def lower(name):
    return LOWER.get(name, ref.canon(name))


def dagger_op(op):
    name, ps, tg = ref.canon(op[0]), op[1], op[2]
    if name in SELF:
        return (name, ps, tg)
    if name in INVERSE:
        return (INVERSE[name], ps, tg)
    if name in ("u2", "cu2"):
        return ("u3" if name == "u2" else "cu3", (-math.pi / 2, -ps[1], -ps[0]), tg)
    if name in ("u3", "cu3"):
        return (name, (-ps[0], -ps[2], -ps[1]), tg)
    return (name, tuple(-p for p in ps), tg)


class Model:
    def __init__(self, n=0, ops=(), default=None):
        self.n, self.ops, self.default = n, list(ops), default

    def copy(self):
        return Model(self.n, self.ops, self.default)

    def valid(self):
        return all(ref.resolve(*_nt(o), self.n) is not None for o in self.ops)

    def unitary_only(self):
        return not any(ref.canon(o[0]) in ref.NONUNITARY for o in self.ops)

    def simple_pairs(self):
        """No two-qubit gate with slices (their conjugate over several pairs is a listed finding of C05)."""
        return not any(isinstance(o[2], tuple) and ref.arity(REFNAME.get(o[0], o[0])) > 1 and any(isinstance(x, slice) for x in o[2])
                       for o in self.ops)

    def exact(self):
        return not any(ref.canon(o[0]) == "cu1" for o in self.ops)


def _nt(o):
    o = rop(o)
    return o[0], o[2]


class Entry:
    __slots__ = ("real", "model", "runs", "label")

    def __init__(self, real, model, label):
        self.real, self.model, self.runs, self.label = real, model, 0, label


class History:
    """Runs random steps; every violation carries the whole history."""

    def __init__(self, t, weights, nmax=4, flaky=True, nonunitary=0.08):
        setup()
        self.t, self.rng, self.nmax, self.flaky, self.nonunitary = t, t.rng, nmax, flaky, nonunitary
        self.pool = []
        self.held = []            # (returned array, its snapshot): results belong to the caller
        self.shared = [NumPyBackend() for _ in range(2)]
        self.steps = list(weights)
        self.w = [weights[s] for s in self.steps]
        self.count = 0
        self.sig = []
        self.mutated = 0
        self.long = self.rng.random() < .06         # a few histories have circuits of hundreds of gates
        self.cap = 300 if self.long else 45

    # ---- helpers
    def fail(self, msg, **info):
        self.t.fail(msg, history="\n".join(self.t.trace[-60:]), **info)

    def pick(self):
        return self.rng.choice(self.pool)

    def add(self, real, model, label):
        if len(self.pool) >= 5:
            self.pool.pop(self.rng.randrange(len(self.pool)))
        self.pool.append(Entry(real, model, label))

    def log(self, s):
        self.t.log(s)

    def new_op(self, n):
        rng = self.rng
        if self.flaky and rng.random() < 0.12:
            name = rng.choice(["vf_flaky", "vf_flakyx"])
            return (name, (gen.angle(rng),) if name == "vf_flaky" else (), gen.gen_target(rng, "x", n))
        if rng.random() < self.nonunitary:
            name = rng.choice(["measure", "m", "reset"])
            return (name, (), gen.gen_target(rng, name, n, rich=rng.random() < .5))
        name = rng.choice(NAMES)
        tg = gen.gen_target(rng, name, n, rich=rng.random() < 0.4)
        return None if tg is None else (name, gen.gen_params(rng, name), tg)

    # ---- steps
    def step(self):
        s = self.rng.choices(self.steps, self.w)[0]
        if not self.pool and s != "new":
            s = "new"
        self.count += 1
        self.sig.append(s)
        getattr(self, "s_" + s)()
        self.t.ev("step_" + s)

    def s_new(self):
        rng = self.rng
        n = rng.randint(0, self.nmax)
        label = f"c{self.count}"
        self.log(f"{label} = Circuit({n})")
        self.add(Circuit(n), Model(n), label)
        e = self.pool[-1]
        for _ in range(rng.randint(0, 5)):
            if e in self.pool:
                self.append(e)

    def append(self, e):
        n = max(1, min(self.nmax, e.model.n + (self.rng.random() < 0.15)))
        op = self.new_op(n)
        if op is None or len(e.model.ops) > self.cap:
            return
        back = gen.apply_op(e.real, op)
        self.log(f"{e.label}.{gen.show(0, [op]).split('.', 1)[1]}")
        if back is not e.real:
            self.fail("applying a gate does not return the circuit itself")
        e.model.ops.append(op)
        e.model.n = max(e.model.n, ref.max_index(op[2]) + 1)
        if not e.model.valid() and self.rng.random() < 0.85:
            self.pool.remove(e)        # keep only some circuits whose run must fail

    def s_append(self):
        e = self.pick()
        burst = self.long and self.rng.random() < .5
        for _ in range(self.rng.randint(10, 60) if burst else self.rng.randint(1, 4)):
            if e in self.pool:
                self.append(e)
        if burst:
            self.t.ev("long_circuits")

    def s_copy(self):
        e = self.pick()
        kw = {}
        label = f"c{self.count}"
        if self.rng.random() < 0.1 and all(type(g).__module__.startswith("blueqat") for g in e.real.ops):
            self.log(f"{label} = deepcopy({e.label})")
            self.t.ev("step_deepcopy")
            self.add(copy.deepcopy(e.real), e.model.copy(), label)
            return
        if self.rng.random() < 0.3:
            kw["copy_backends"] = self.rng.random() < 0.5
        if self.rng.random() < 0.3:
            kw["copy_default_backend"] = self.rng.random() < 0.5
        self.log(f"{label} = {e.label}.copy({kw})")
        m = e.model.copy()
        if not kw.get("copy_default_backend", True):
            m.default = None
        self.add(e.real.copy(**kw), m, label)

    def s_add(self):
        a, b = self.pick(), self.pick()
        if len(a.model.ops) + len(b.model.ops) > self.cap:
            return
        label = f"c{self.count}"
        self.log(f"{label} = {a.label} + {b.label}")
        c = a.real + b.real
        m = Model(max(a.model.n, b.model.n), a.model.ops + b.model.ops, a.model.default)
        if m.valid() or self.rng.random() < .2:
            self.add(c, m, label)

    def s_iadd(self):
        a, b = self.pick(), self.pick()
        if len(a.model.ops) + len(b.model.ops) > self.cap:
            return
        self.log(f"{a.label} += {b.label}")
        c = a.real
        c += b.real
        if c is not a.real:
            self.fail("a += b does not change a itself")
        a.model.ops = a.model.ops + b.model.ops
        a.model.n = max(a.model.n, b.model.n)
        if not a.model.valid() and self.rng.random() < .8:
            self.pool.remove(a)

    def s_dagger(self):
        e = self.pick()
        if not e.model.simple_pairs():
            return
        kw = {}
        if self.rng.random() < 0.4:
            kw["copy_backends"] = self.rng.random() < 0.7
        if self.rng.random() < 0.3:
            kw["copy_default_backend"] = self.rng.random() < 0.5
        label = f"c{self.count}"
        if not e.model.unitary_only():
            if self.rng.random() < .5:
                kw["ignore_measurement"] = True
            else:
                self.log(f"{e.label}.dagger({kw})  # must raise")
                try:
                    e.real.dagger(**kw)
                except ValueError:
                    self.t.ev("dagger_refused")
                    return
                self.fail("dagger of a circuit with measurement did not raise ValueError")
        self.log(f"{label} = {e.label}.dagger({kw})")
        m = Model(e.model.n, [dagger_op(o) for o in reversed(e.model.ops) if ref.canon(o[0]) not in ref.NONUNITARY],
                  e.model.default if kw.get("copy_default_backend", True) else None)
        self.add(e.real.dagger(**kw), m, label)

    def s_default(self):
        e = self.pick()
        name = self.rng.choice(["numpy", ALT, None, "qasm_output" if self.rng.random() < .1 else "numpy"])
        self.log(f"{e.label}.set_default_backend({name!r})")
        e.real.set_default_backend(name)
        e.model.default = name

    def s_cache(self):
        e = self.pick()
        if e.model.default == "qasm_output":
            return
        name = self.rng.choice([None, None, "numpy", ALT])
        self.log(f"{e.label}.make_cache({name!r})")
        try:
            e.real.make_cache(**({} if name is None else {"backend": name}))
        except Exception:
            if e.model.valid():
                raise
            self.t.ev("run_of_invalid_raised")
            return
        if not e.model.valid():
            self.fail("make_cache of an invalid circuit did not raise")
        self.t.ev("caches_made")

    def s_fault(self):
        """A run that fails half-way: a fault inside a decomposition or between two targets of a kernel."""
        e = self.pick()
        if not e.model.valid() or e.model.default == "qasm_output":
            return
        if not any(o[0].startswith("vf_flaky") for o in e.model.ops):
            self.append_flaky(e)
            if e not in self.pool:
                return
        ARMED["n"] = self.rng.randint(1, 6)
        self.log(f"{e.label}.run()  # with a fault armed after {ARMED['n']} flaky targets")
        try:
            how = self.rng.randrange(3)
            if how == 0:
                e.real.run(backend=self.rng.choice(self.shared))
            elif how == 1:
                e.real.run(shots=self.rng.randint(1, 3))
            else:
                e.real.run()
        except Boom:
            self.t.ev("fault_hit")
        finally:
            ARMED["n"] = None

    def append_flaky(self, e):
        n = max(1, e.model.n)
        name = self.rng.choice(["vf_flaky", "vf_flakyx"])
        op = (name, (gen.angle(self.rng),) if name == "vf_flaky" else (), slice(None) if e.model.n else 0)
        gen.apply_op(e.real, op)
        self.log(f"{e.label}.{gen.show(0, [op]).split('.', 1)[1]}")
        e.model.ops.append(op)
        e.model.n = max(e.model.n, ref.max_index(op[2]) + 1)

    def s_badrun(self):
        e = self.pick()
        bad = self.rng.choice([dict(returns="nothing"), dict(backend="no such backend"), dict(shots="three")])
        self.log(f"{e.label}.run({bad})  # must raise")
        if e.model.default == "qasm_output" and "backend" not in bad:
            return
        try:
            e.real.run(**bad)
        except (ValueError, TypeError, IndexError):
            self.t.ev("bad_run_raised")
            return
        except Exception:
            if e.model.valid():
                raise
            return
        self.fail("a run with wrong arguments did not raise", args=bad)

    def s_text(self):
        e = self.pick()
        if any(o[0].startswith("vf_") for o in e.model.ops):
            return
        fresh = Circuit(e.model.n)
        for o in e.model.ops:
            gen.apply_op(fresh, o)
        which = self.rng.choice(["repr", "qasm", "unitary"])
        if which == "repr":
            a, b = repr(e.real), repr(fresh)
        elif not e.model.valid():
            return
        elif which == "qasm":
            if any(ref.canon(o[0]) in ("rxx", "ryy") for o in e.model.ops):
                pass
            a, b = e.real.to_qasm(), fresh.to_qasm()
        else:
            if e.model.n > 2 or len(e.model.ops) > 5:
                return
            a, b = e.real.to_unitary(), fresh.to_unitary()
        self.log(f"{e.label}: {which}")
        self.t.ev("text_compared")
        if which == "unitary":
            # compared entry by entry with an own evaluator: SymPy's comparison is exponential in shared subexpressions
            from .props.b02 import to_np
            a, b = to_np(a), to_np(b)
            bad = not np.allclose(a, b, atol=1e-9)
        else:
            bad = a != b
        if bad:
            self.fail(f"{which} differs from that of a freshly built circuit", got=a, expected=b)

    def s_run(self):
        self.run(self.pick())

    def s_mutate(self):
        """The caller overwrites a result it was given."""
        live = [h for h in self.held if h[2]]
        if not live:
            return
        h = self.rng.choice(live)
        if isinstance(h[0], np.ndarray):
            h[0][...] = np.nan if self.rng.random() < .5 else 1.0
        else:
            h[0].clear()
            h[0]["garbage"] = 99
        self.held = [x for x in self.held if x is not h]
        self.mutated += 1
        self.log("the caller overwrites a returned result")

    def run(self, e):
        rng, t = self.rng, self.t
        m = e.model
        kw = {}
        how = rng.random()
        backend = None
        shared = False
        if how < 0.25:
            backend = rng.choice(self.shared)
            kw["backend"] = backend
            shared = True
        elif how < 0.35:
            kw["backend"] = rng.choice(["numpy", ALT])
        via = "run"
        if how > 0.93:
            via = "run_with_numpy"
        form = rng.choice(["vec", "vec", "vec", "shots", "both", "ig"])
        shots = None
        if form == "shots":
            shots = rng.randint(1, 5)
            kw["shots"] = shots
            if rng.random() < .4:
                kw["returns"] = "shots"
        elif form == "both":
            shots = rng.randint(1, 4)
            kw.update(shots=shots, returns="statevector_and_shots")
        elif form == "ig":
            kw["ignore_global"] = True
        elif rng.random() < .3:
            kw["returns"] = "statevector"
        if via == "run_with_numpy":
            kw.pop("backend", None)
        self.log(f"{e.label}.{via}({', '.join(f'{k}={self.bname(v)}' for k, v in kw.items())})")
        text = via == "run" and "backend" not in kw and m.default == "qasm_output"
        if text:
            return
        try:
            res = getattr(e.real, via)(**kw)
        except Exception:
            if m.valid():
                raise
            t.ev("run_of_invalid_raised")
            return
        if not m.valid():
            self.fail("an invalid circuit produced a result", result=res)
        e.runs += 1
        t.ev("runs_checked")
        if e.runs > 1:
            t.ev("reruns_checked")
        if shared:
            t.ev("runs_on_shared_backend")
        self.judge(m, form, res, shots)

    def bname(self, v):
        return f"shared{self.shared.index(v)}" if isinstance(v, NumPyBackend) else repr(v)

    def judge(self, m, form, res, shots):
        t = self.t
        vec, cnt = (res, None) if form in ("vec", "ig") else (None, res) if form == "shots" else res
        ops = rops(m.ops)
        if m.unitary_only():
            want = ref.run(ops, m.n)
            if vec is not None:
                ok = ref.same_up_to_phase(vec, want) if form == "ig" or not m.exact() else ref.same(vec, want, 1e-9)
                if not ok:
                    self.fail("a run's result differs from that of the same circuit freshly built", model=gen.show(m.n, m.ops), got=vec, expected=want)
                if form == "ig":
                    first = want_first(want, vec)
                    if first is not None and (abs(first.imag) > 1e-9 or first.real < 0):
                        self.fail("ignore_global did not make the first amplitude real and positive", got=vec)
            if cnt is not None and m.n:
                if dict(cnt) != {"0" * m.n: shots}:
                    self.fail("counts of a circuit without measurement", got=cnt, shots=shots)
        else:
            brs = ref.branches(ops, m.n)
            if cnt is not None and m.n:
                if sum(cnt.values()) != shots:
                    self.fail("counts do not sum to the shots", got=cnt, shots=shots)
                sup = {"".join(map(str, r)) for _, r, _ in brs}
                if not set(cnt) <= sup:
                    self.fail("an impossible outcome was counted", model=gen.show(m.n, m.ops), got=cnt, possible=sorted(sup))
            if vec is not None:
                good = [b for b in brs if (ref.same_up_to_phase(vec, b[2], 1e-6) if form == "ig" else ref.same(vec, b[2], 1e-6))]
                if not m.exact():
                    good = [b for b in brs if ref.same_up_to_phase(vec, b[2], 1e-6)]
                if not good:
                    self.fail("the final state is not one that this circuit can reach", model=gen.show(m.n, m.ops), got=vec)
                if cnt is not None and m.n and not any("".join(map(str, b[1])) in cnt for b in good):
                    self.fail("the returned state does not belong to any counted shot", model=gen.show(m.n, m.ops), got=vec, counts=cnt)
        if self.rng.random() < 0.5 and len(self.held) < 12:
            if vec is not None:
                self.held.append((vec, vec.copy(), True))
            if cnt is not None:
                self.held.append((cnt, Counter(cnt), True))

    # ---- whole-pool checks
    def check_held(self):
        for real, snap, _ in self.held:
            if isinstance(real, np.ndarray):
                if real.shape != snap.shape or not np.array_equal(real, snap):
                    self.fail("a result that was returned earlier has been changed by a later operation", now=real, then=snap)
            elif dict(real) != dict(snap):
                self.fail("a counter that was returned earlier has been changed by a later operation", now=real, then=snap)
            self.t.ev("held_results_checked")

    def check_structure(self):
        t = self.t
        for e in self.pool:
            c, m = e.real, e.model
            if c.n_qubits != m.n:
                self.fail(f"{e.label} has another qubit count than its history says", got=c.n_qubits, expected=m.n)
            if len(c.ops) != len(m.ops):
                self.fail(f"{e.label} has another number of gates than its history says", got=len(c.ops), expected=len(m.ops))
            for g, o in zip(c.ops, m.ops):
                if g.lowername != lower(o[0]) or not same_target(g.targets, o[2]) or not same_params(g.params, o[1]):
                    self.fail(f"{e.label} has another gate than its history says", got=str(g), expected=gen.show(0, [o]))
            d = m.default or "numpy"
            if c.get_default_backend_name() != d:
                self.fail(f"{e.label} has another default backend", got=c.get_default_backend_name(), expected=d)
            t.ev("structures_checked")

    def final(self):
        """Every circuit still gives its model's result."""
        for e in list(self.pool):
            if e.model.default == "qasm_output":
                e.real.set_default_backend(None)
                e.model.default = None
            self.run(e)
        self.check_held()


def same_target(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_target(x, y) for x, y in zip(a, b))
    if isinstance(a, slice) or isinstance(b, slice):
        return a == b
    return not isinstance(a, tuple) and not isinstance(b, tuple) and int(a) == int(b)


def same_params(a, b):
    return len(a) == len(b) and all(abs(float(x) - float(y)) < 1e-12 for x, y in zip(a, b))
