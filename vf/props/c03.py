"""C03: a run's result does not depend on earlier runs (history + stateless model)."""
from ..history import History

RULE = ("random histories (8-60 steps) over a pool of up to 5 circuits and 2 shared backend objects: append, run in every form, make_cache, copy, concatenate, "
        "conjugate, set default backend, failing runs (faults in a decomposition / between targets of a kernel, bad arguments, invalid selections); every run "
        "is compared with the reference state of the model; non-trivial = at least one circuit run twice with a change of history in between; distinct = step sequence")
REQUIRED = ["reruns_checked", "long_circuits", "runs_on_shared_backend", "caches_made", "fault_hit", "bad_run_raised", "run_of_invalid_raised", "step_iadd", "step_dagger", "step_copy"]

W = dict(new=6, append=22, run=38, cache=7, copy=7, add=4, iadd=4, dagger=5, default=3, fault=6, badrun=3, text=3, mutate=4)


def plan(tier):
    k = 2 if tier == "quick" else 25
    return [("mixed", 700 * k), ("few", 500 * k), ("shared", 300 * k)]


def case(t, kind):
    rng = t.rng
    w = dict(W)
    if kind == "few":           # long life of one or two circuits
        w.update(new=1, add=1, copy=3)
    if kind == "shared":
        w.update(new=10, copy=14, dagger=8, default=1)
    h = History(t, w, nmax=rng.choice([2, 3, 4]), nonunitary=rng.choice([0, 0.05, 0.15]))
    if kind == "shared":
        h.pick_backend = None
    for _ in range(rng.randint(8, 45)):
        h.step()
    h.final()
    t.sample = " ; ".join(t.trace[:12])
    if any(e.runs > 1 for e in h.pool) or t.events["reruns_checked"]:
        t.key(tuple(h.sig), t.trace[-1])
