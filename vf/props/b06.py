"""B06: histories of registry and default-backend operations against a dictionary model."""
import warnings

import numpy as np
from blueqat import BlueqatGlobalSetting as G
from blueqat import Circuit
from blueqat.backends.backendbase import Backend
from blueqat.gate import HGate, RXGate, XGate, YGate

RULE = ("random histories of registering, overwriting, unregistering gates, macros and backends under fresh, built-in, method and run_with_ names, global and per-circuit default backends, copies, on old and new circuits; after each "
        "step every name is probed on an old and a new circuit against a dictionary model (method > gate > macro > run_with_); distinct = operation sequence")
REQUIRED = ["registered_gate", "registered_macro", "registered_backend", "refused", "overwritten", "unregistered", "unknown_unregister_refused", "gate_used", "macro_used", "backend_used", "default_global", "default_circuit",
            "default_cleared", "unknown_default_refused", "probes", "attribute_kept", "builtin_unregistered", "shared_object"]

METHODS = ["run", "copy", "dagger", "to_qasm", "make_cache", "to_unitary", "set_default_backend"]
ATTRS = ["ops", "n_qubits"]
FRESH = ["ga", "gb", "run", "x1", "m_1", "foo"]
BUILTIN = {"x": XGate, "h": HGate, "rx": RXGate, "y": YGate}
BACK = ["ba", "bb", "foo", "x", "ga"]


def plan(tier):
    k = 6 if tier == "quick" else 30
    return [("history", 900 * k)]


class Tagged(Backend):
    tag = None

    def run(self, gates, n_qubits, *args, **kwargs):
        return ("ran", self.tag, len(gates), n_qubits, args, tuple(sorted(kwargs.items())))

    def copy(self):
        return type(self)()


class World:
    def __init__(self, t):
        self.t, self.rng = t, t.rng
        self.gates = dict(BUILTIN)
        self.macros, self.backs = {}, {}
        self.default = "numpy"
        self.serial = 0
        self.circs = []          # [circuit, own default, {backend names it may hold instances of: set of tags}]
        self.calls = []
        self.log = []

    def names(self):
        return sorted(set(FRESH) | set(BUILTIN) | set(METHODS) | set(ATTRS) | {"run_with_foo", "run_with_ba", "run_with_zz"} | set(self.gates) | set(self.macros))

    # -- model of attribute lookup
    def resolve(self, name):
        if name in METHODS:
            return ("method",)
        if name in ATTRS:
            return ("attr",)
        if name in self.gates:
            return ("gate", self.gates[name])
        if name in self.macros:
            return ("macro", self.macros[name])
        if name.startswith("run_with_"):
            b = name[9:]
            if b in self.backs or b == "numpy":
                return ("backend", b)
        return ("none",)


def attempt(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return True, f(*a, **k)
        except ValueError as e:
            return False, e


def case(t, kind):
    w = World(t)
    rng = t.rng
    orig_default = G.get_default_backend_name()
    try:
        new_circuit(w)
        for _ in range(rng.randint(6, 30)):
            step(w)
            probe(w)
    finally:
        restore(w, orig_default)
    t.key(tuple(w.log))
    t.sample = " ; ".join(w.log[:14])


def restore(w, default):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            G.set_default_backend(default)
        except ValueError:
            pass
        for d, f in ((set(w.names()) | set(BACK), G.unregister_gate), (set(w.names()) | set(BACK), G.unregister_macro), (BACK, G.unregister_backend)):
            for n in d:
                if f is G.unregister_gate and n in BUILTIN:
                    continue
                try:
                    f(n)
                except ValueError:
                    pass
        for n, c in BUILTIN.items():
            G.register_gate(n, c, allow_overwrite=True)


def new_circuit(w):
    if len(w.circs) > 4:
        w.circs.pop(w.rng.randrange(len(w.circs)))
    w.circs.append([Circuit(w.rng.randint(1, 3)), None, {}])


def step(w):
    t, rng = w.t, w.rng
    op = rng.choices(["gate", "macro", "backend", "ungate", "unmacro", "unbackend", "default", "cdefault", "new", "copy", "use", "run"],
                     [12, 10, 9, 7, 6, 6, 6, 7, 3, 4, 14, 14])[0]
    over = rng.random() < .35
    w.serial += 1
    if op in ("gate", "macro"):
        name = rng.choice(w.names()) if rng.random() < .4 else rng.choice(FRESH + list(BUILTIN))
        taken = hasattr_class(name) or name.startswith("run_with_") or name in w.gates or name in w.macros
        if op == "gate":
            obj = type(f"G{w.serial}", (rng.choice([XGate, HGate, YGate, RXGate]),), {})
            if rng.random() < .3:
                obj = rng.choice(list(w.gates.values()) + list(BUILTIN.values()))          # one class under several names
                t.ev("shared_object")
            args = (name, obj)
        else:
            tag = w.serial

            def obj(c, *a, _tag=tag, **k):
                w.calls.append((_tag, c, a, k))
                return ("macro", _tag)
            if w.macros and rng.random() < .3:
                tag, obj = rng.choice(sorted(w.macros.values(), key=lambda x: x[0]))
                t.ev("shared_object")
            args = (name, obj)
        f = G.register_gate if op == "gate" else G.register_macro
        w.log.append(f"register_{op}({name}{', overwrite' if over else ''})")
        ok, err = attempt(f, *args, **(dict(allow_overwrite=True) if over else rng.choice([{}, dict(allow_overwrite=False)])))
        t.check(ok == (over or not taken), "a taken name was accepted" if ok else "a free name was refused", history=w.log, error=repr(err))
        if ok:
            if op == "gate":
                w.gates[name] = obj
            else:
                w.macros[name] = (tag, obj)
            t.ev("registered_" + op)
            if taken:
                t.ev("overwritten")
        else:
            t.ev("refused")
    elif op == "backend":
        name = rng.choice(BACK) if rng.random() < .85 or over else "numpy"
        taken = name in w.backs or name == "numpy"
        if name == "numpy":
            over = False
        cls = type(f"B{w.serial}", (Tagged,), {"tag": w.serial})
        make = cls if rng.random() < .5 else (lambda: cls())
        w.log.append(f"register_backend({name}{', overwrite' if over else ''})")
        ok, err = attempt(G.register_backend, name, make, **(dict(allow_overwrite=True) if over else {}))
        t.check(ok == (over or not taken), "a taken name was accepted" if ok else "a free name was refused", history=w.log, error=repr(err))
        if ok:
            w.backs[name] = w.serial
            t.ev("registered_backend")
            if taken:
                t.ev("overwritten")
        else:
            t.ev("refused")
    elif op in ("ungate", "unmacro", "unbackend"):
        d = dict(ungate=w.gates, unmacro=w.macros, unbackend=w.backs)[op]
        f = dict(ungate=G.unregister_gate, unmacro=G.unregister_macro, unbackend=rng.choice([G.unregister_backend, G.remove_backend]))[op]
        if d and rng.random() < .6:
            name = rng.choice(sorted(d))
        else:
            name = rng.choice(FRESH + BACK + ["run_with_foo", "copy", "nothing"] + (["x", "h"] if op != "unbackend" else ["numpyy"]))
        w.log.append(f"unregister {op[2:]} {name}")
        ok, err = attempt(f, name)
        t.check(ok == (name in d), "unregistering an unknown name was accepted" if ok else "a registered name could not be unregistered", history=w.log, error=repr(err))
        if ok:
            if d.get(name) in BUILTIN.values():
                t.ev("builtin_unregistered")
            del d[name]
            t.ev("unregistered")
        else:
            t.ev("unknown_unregister_refused")
    elif op == "default":
        name = rng.choice(sorted(w.backs) + ["numpy", "nosuch", "ba", "foo"])
        w.log.append(f"global default {name}")
        ok, err = attempt(G.set_default_backend, name)
        t.check(ok == (name in w.backs or name == "numpy"), "an unknown default backend was accepted" if ok else "a known default backend was refused", history=w.log)
        if ok:
            w.default = name
            t.ev("default_global")
        else:
            t.ev("unknown_default_refused")
    elif op == "cdefault":
        e = rng.choice(w.circs)
        name = rng.choice(sorted(w.backs) + ["numpy", "nosuch", None, "bb"])
        w.log.append(f"default of c{w.circs.index(e)}: {name}")
        ok, err = attempt(e[0].set_default_backend, name)
        t.check(ok == (name is None or name in w.backs or name == "numpy"), "an unknown default backend was accepted" if ok else "a known default backend was refused", history=w.log)
        if ok:
            e[1] = name
            t.ev("default_circuit" if name else "default_cleared")
        else:
            t.ev("unknown_default_refused")
    elif op == "new":
        new_circuit(w)
        w.log.append("new circuit")
    elif op == "copy":
        e = rng.choice(w.circs)
        kw = rng.choice([{}, {"copy_backends": False}, {"copy_default_backend": False}])
        w.circs.append([e[0].copy(**kw), e[1] if kw.get("copy_default_backend", True) else None, {k: set(v) for k, v in e[2].items()}])
        if len(w.circs) > 5:
            w.circs.pop(0)
        w.log.append("copy")
    elif op == "use":
        e = rng.choice(w.circs)
        name = rng.choice(w.names() + sorted(w.gates) + sorted(w.macros) * 3)
        use(w, e[0], name)
    else:
        run(w, rng.choice(w.circs))


def hasattr_class(name):
    return name in METHODS or name in ATTRS


def use(w, c, name):
    t, rng = w.t, w.rng
    r = w.resolve(name)
    if r[0] in ("method", "backend", "attr"):
        return
    w.log.append(f"use {name}")
    n_ops = len(c.ops)
    if r[0] == "none":
        try:
            getattr(c, name)
        except AttributeError:
            return
        t.fail("an unregistered name is usable", name=name, history=w.log)
    if r[0] == "macro":
        a = (rng.randint(0, 5),) if rng.random() < .5 else ()
        k = {"k": 1} if rng.random() < .5 else {}
        before = len(w.calls)
        res = getattr(c, name)(*a, **k)
        t.check(res == ("macro", r[1][0]) and len(w.calls) == before + 1 and w.calls[-1][0] == r[1][0] and w.calls[-1][1] is c and w.calls[-1][2:] == (a, k), "the macro was not called with the circuit and the arguments",
                name=name, got=res, history=w.log)
        t.ev("macro_used")
        return
    cls = r[1]
    g = getattr(c, name)
    params = (0.25,) if issubclass(cls, RXGate) else ()
    if params:
        g = g(*params)
    res = g[0]
    t.check(res is c and len(c.ops) == n_ops + 1 and type(c.ops[-1]) is cls and tuple(c.ops[-1].params) == params, "the registered gate was not applied", name=name, got=repr(c.ops[-1:]), expected=cls, history=w.log)
    t.ev("gate_used")


def run(w, e):
    t, rng = w.t, w.rng
    c = e[0]
    args = (7,) if rng.random() < .3 else ()
    kw = {"opt": 1} if rng.random() < .3 else {}
    how = rng.choice(["default", "default", "named", "run_with"])
    if how == "default":
        name = e[1] or w.default
        t.check(c.get_default_backend_name() == name, "wrong default backend", got=c.get_default_backend_name(), expected=name, history=w.log)
        if name == "numpy":
            args, kw = (), {}
        f = lambda: c.run(*args, **kw)
    else:
        name = rng.choice(sorted(w.backs) * 2 + ["ba", "foo", "nosuch", "numpy"])
        if name == "numpy":
            args, kw = (), {}
        if how == "run_with" and w.resolve("run_with_" + name)[0] in ("gate", "macro"):
            return
        f = (lambda: c.run(*args, backend=name, **kw)) if how == "named" else (lambda: getattr(c, "run_with_" + name)(*args, **kw))
    w.log.append(f"run c{w.circs.index(e)} {how} {name}")
    known = name in w.backs or name == "numpy"
    held = e[2].get(name, set())
    try:
        res = f()
    except (ValueError, AttributeError) as x:
        t.check(not known, "a registered backend is not usable", error=repr(x), name=name, history=w.log)
        t.check(isinstance(x, AttributeError if how == "run_with" else ValueError), "wrong kind of error for an unknown backend", error=repr(x), history=w.log)
        return
    if name == "numpy":
        t.check(isinstance(res, np.ndarray), "the built-in backend was not used", got=repr(res), history=w.log)
        return
    # a circuit that already used another backend under this name may keep its instance
    ok_tags = ({w.backs[name]} if known else set()) | {x for x in held if x != w.backs.get(name)}
    t.check(bool(ok_tags), "an unregistered backend is usable", name=name, history=w.log)
    t.check(isinstance(res, tuple) and res[0] == "ran" and res[1] in ok_tags, "another backend was used", got=repr(res), expected=ok_tags, history=w.log)
    t.check(res[2:] == (len(c.ops), c.n_qubits, args, tuple(sorted(kw.items()))), "the backend was given something else", got=repr(res), history=w.log)
    e[2].setdefault(name, set()).add(res[1])
    t.ev("backend_used")


def probe(w):
    """Every name resolves as the model says, on an old and on a new circuit."""
    t = w.t
    t.check(G.get_default_backend_name() == w.default, "wrong global default", got=G.get_default_backend_name(), expected=w.default, history=w.log)
    for e in w.circs:
        t.check(e[0].get_default_backend_name() == (e[1] or w.default), "wrong default backend of a circuit", got=e[0].get_default_backend_name(), expected=e[1] or w.default, history=w.log)
    e = w.rng.choice(w.circs)
    old = e[0]
    for name in w.names():
        r = w.resolve(name)
        c = Circuit(1)
        if r[0] in ("method", "backend"):
            for x in (c, old):
                t.check(callable(getattr(x, name, None)), "a method or run_with_ accessor is missing", name=name, history=w.log)
            if r[0] == "backend" and r[1] in w.backs:
                e[2].setdefault(r[1], set()).add(w.backs[r[1]])         # the accessor makes the circuit's instance
            if r[0] == "backend" and r[1] != "numpy":
                res = getattr(c, name)()
                t.check(res[:2] == ("ran", w.backs[r[1]]), "another backend answers", name=name, got=res, history=w.log)
        elif r[0] == "attr":
            t.check(type(c.ops) is list and type(old.ops) is list and type(c.n_qubits) is int and c.n_qubits == 1, "an attribute of a circuit was replaced", name=name, history=w.log)
            t.ev("attribute_kept")
        elif r[0] == "none":
            for x in (c, old):
                t.check(not hasattr(x, name), "a name that is not registered is usable", name=name, history=w.log)
        elif r[0] == "macro":
            res = getattr(c, name)(1)
            t.check(res == ("macro", r[1][0]) and w.calls[-1][1] is c, "another macro answers", name=name, got=res, history=w.log)
            t.check(callable(getattr(old, name)), "macro missing on an old circuit", name=name, history=w.log)
        else:
            g = getattr(c, name)
            g = (g(.5) if issubclass(r[1], RXGate) else g)[0]
            t.check(g is c and type(c.ops[-1]) is r[1], "another gate answers", name=name, got=type(c.ops[-1]), expected=r[1], history=w.log)
            t.check(hasattr(old, name), "gate missing on an old circuit", name=name, history=w.log)
        t.ev("probes")
    for name in ("s", "cz", "u3"):          # untouched built-ins
        t.check(hasattr(old, name), "a built-in gate disappeared", name=name, history=w.log)
