"""C04: copies, sums, conjugates and returned results are independent (history + structural model)."""
import warnings

from blueqat import BlueqatGlobalSetting, Circuit
from blueqat.backends.backendbase import Backend

from ..history import History

RULE = ("random histories over a pool of circuits with emphasis on copy / + / += / dagger / set_default_backend and on overwriting returned arrays and counters; after "
        "every step every circuit in the pool is compared gate by gate with its model and every result still held with its snapshot; non-trivial = a derived circuit "
        "and a later change; distinct = step sequence. Also: histories of copy / + / dagger with and without their backends over stateful user-defined backends, "
        "judged by a model of who owns which state")
REQUIRED = ["structures_checked", "held_results_checked", "step_copy", "step_deepcopy", "step_add", "step_iadd", "step_dagger", "step_mutate", "long_circuits", "step_default", "runs_checked", "dagger_refused", "state_carried", "state_fresh", "instances_checked", "own_copy_used", "deprecated_options"]

W = dict(new=6, append=20, run=18, cache=2, copy=12, add=9, iadd=9, dagger=8, default=6, badrun=2, text=4, mutate=9, fault=1)


def plan(tier):
    k = 2 if tier == "quick" else 25
    return [("mixed", 900 * k), ("small", 600 * k), ("backends", 300 * k)]


class _Stateful(Backend):
    """A backend with memory: returns its memory and the gates it is given, and remembers the run."""
    def __init__(self):
        self.past = []

    def run(self, gates, n_qubits, *args, **kwargs):
        out = (list(self.past), [g.lowername for g in gates], n_qubits)
        self.past.append(len(gates))
        return out


class _OwnCopy(_Stateful):
    """The same with its own copy method."""
    def copy(self):
        new = _OwnCopy()
        new.past = self.past + ["copied"]
        return new


def backends(t):
    """Who shares which backend state: model = {backend name: memory} per circuit."""
    rng = t.rng
    kinds = {"vf_state_a": _Stateful, "vf_state_b": _OwnCopy}
    for name, cls in kinds.items():
        BlueqatGlobalSetting.register_backend(name, cls, allow_overwrite=True)
    try:
        pool = []

        def copied(mem):
            return {k: list(v) + (["copied"] if kinds[k] is _OwnCopy else []) for k, v in mem.items()}

        for _ in range(rng.randint(5, 25)):
            r = rng.random()
            if not pool or r < .12:
                pool.append((Circuit(rng.choice([0, 1, 2, 2, 3, 4])), {}, None))
                t.log("new")
                continue
            i = rng.randrange(len(pool))
            c, mem, default = pool[i]
            if r < .5:
                name = rng.choice(list(kinds))
                how = rng.choice(["run", "attr", "default"])
                if how == "default" and default is None:
                    how = "run"
                got = c.run(backend=name) if how == "run" else getattr(c, "run_with_" + name)() if how == "attr" else c.run()
                if how == "default":
                    name = default
                t.log(f"c{i} {how} {name}")
                want = (mem.get(name, []), [g.lowername for g in c.ops], c.n_qubits)
                t.check(got == want, "the backend a circuit runs on has another state than the circuit's own history gives", history=t.trace, got=got, expected=want)
                mem.setdefault(name, []).append(len(c.ops))
                t.ev("instances_checked")
                if want[0]:
                    t.ev("state_carried")
                    if "copied" in want[0]:
                        t.ev("own_copy_used")
                else:
                    t.ev("state_fresh")
            elif r < .6:
                c.x[rng.randrange(2)]
                t.log(f"c{i} gate")
            elif r < .75:
                kw = rng.choice([{}, {}, dict(copy_backends=True), dict(copy_backends=False), dict(copy_default_backend=False)])
                old = rng.choice([{}, {}, dict(copy_cache=rng.random() < .5), dict(copy_history=True), dict(copy_backends=False, copy_cache=True)])
                kw = {**kw, **old}
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    new = c.copy(**kw)
                if "copy_cache" in kw or "copy_history" in kw:
                    t.ev("deprecated_options")
                pool.append((new, copied(mem) if kw.get("copy_backends", True) else {}, default if kw.get("copy_default_backend", True) else None))
                t.log(f"c{len(pool) - 1} = c{i}.copy({kw})")
            elif r < .85:
                kw = rng.choice([{}, {}, dict(copy_backends=True), dict(copy_backends=False), dict(copy_default_backend=False)])
                new = c.dagger(**kw)
                pool.append((new, copied(mem) if kw.get("copy_backends", False) else {}, default if kw.get("copy_default_backend", True) else None))
                t.log(f"c{len(pool) - 1} = c{i}.dagger({kw})")
            elif r < .95:
                j = rng.randrange(len(pool))
                if len(c.ops) + len(pool[j][0].ops) > 20:
                    continue
                if rng.random() < .5:
                    pool.append((c + pool[j][0], copied(mem), default))
                    t.log(f"c{len(pool) - 1} = c{i} + c{j}")
                else:
                    c += pool[j][0]
                    t.log(f"c{i} += c{j}")
            else:
                default = rng.choice([None] + list(kinds))
                c.set_default_backend(default)
                pool[i] = (c, mem, default)
                t.log(f"c{i} default {default}")
        t.key("backends", repr(t.trace))
        t.sample = " ; ".join(t.trace[:12])
    finally:
        for name in kinds:
            BlueqatGlobalSetting.unregister_backend(name)


def case(t, kind):
    rng = t.rng
    if kind == "backends":
        return backends(t)
    h = History(t, W, nmax=rng.choice([1, 2, 3, 4]) if kind == "mixed" else 2, nonunitary=0.05)
    for _ in range(rng.randint(6, 40)):
        h.step()
        h.check_structure()
        h.check_held()
    h.final()
    h.check_structure()
    t.sample = " ; ".join(t.trace[:12])
    t.key(tuple(h.sig))
