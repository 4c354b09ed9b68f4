"""C09: rejected operations leave the circuit as it was (fault injection in histories)."""
import numpy as np
from blueqat import Circuit, pauli

from .. import gen, ref
from ..history import History, same_params, same_target

RULE = ("random histories with a rejected operation (bad index types, missing/surplus/unknown parameters, unknown gates, backends, return forms and settings, non-circuit operands, "
        "refused dagger, runs of invalid selections, faults inside a run) injected at random points; gates (by identity), qubit count, default backend are compared before/after each, and every "
        "circuit's later result with the model; distinct = step sequence")
KINDS = ["index", "index_tuple", "params_missing", "params_many", "params_kw", "unknown_gate", "unknown_backend", "unknown_returns", "unknown_cache", "unknown_default",
         "add_other", "iadd_other", "dagger", "run_with", "bad_pair_run", "slice_index", "shots_type"]
REQUIRED = ["rejected_" + k for k in KINDS] + ["runs_checked", "structures_checked", "fault_hit"]
LEVEL = "fault_enumeration"

W = dict(new=5, append=14, run=16, copy=5, add=3, iadd=3, dagger=3, default=3, cache=3, fault=4, reject=45, text=2)


class H(History):
    def s_reject(self):
        rng, t = self.rng, self.t
        e = self.pick()
        c = e.real
        ops0, list0 = list(c.ops), c.ops
        txt0 = [str(g) for g in ops0]
        n0, d0 = c.n_qubits, c.get_default_backend_name()
        kind = rng.choice(KINDS)
        n = max(1, c.n_qubits)
        one = rng.choice(["x", "y", "z", "h", "t", "s", "measure", "reset", "i", "sdg"])
        badidx = rng.choice([1.0, 0.5, "a", None, [0], {}, np.float64(1), 1j, (0,) if False else "0"])
        ok_errors = (TypeError, ValueError, AttributeError, IndexError)

        # operands that have some of a circuit's attributes
        lookalikes = [pauli.X[n + 2] * pauli.Z[0], pauli.Y[n] + 1, type("Sized", (), {"n_qubits": n + 3})(), type("Gates", (), {"ops": c.ops})(),
                      type("Gates2", (), {"ops": [c.ops[0]] if c.ops else [], "n_qubits": None})(), c.x if rng.random() < .5 else Circuit]

        def attempt():
            nonlocal c
            big = n + rng.randint(1, 3)
            if kind == "index":
                getattr(c, one)[badidx]
            elif kind == "index_tuple":
                getattr(c, one)[rng.choice([(big, badidx), (badidx, 0), (0, badidx, big), (slice(0, big), badidx)])]
            elif kind == "slice_index":
                getattr(c, one)[rng.choice([slice(0, "a"), slice(1.5, None), slice(big, 2.5), slice("x", 1)])]
            elif kind == "params_missing":
                g, p = rng.choice([("rx", ()), ("u2", (1.,)), ("u3", (1., 2.)), ("crz", ()), ("phase", ()), ("cu3", (1., 2.)), ("rzz", ()), ("u1", ())])
                w = getattr(c, g)
                if p:
                    w = w(*p)
                w[(big, 0) if ref.arity(g) == 2 else big]
            elif kind == "params_many":
                g = rng.choice(["rx", "ry", "rz", "phase", "u1", "u2", "u3", "crx", "cu1", "cu2", "cu3", "rzz"])
                getattr(c, g)(*[0.1] * (ref.nparams(g) + rng.randint(1, 2)))[(big, 0) if ref.arity(g) == 2 else big]
            elif kind == "params_kw":
                g = rng.choice(["rx", "u1", "u3", "cphase", "u2"])
                getattr(c, g)(angle=0.3)[(big, 0) if ref.arity(g) == 2 else big]
            elif kind == "unknown_gate":
                getattr(c, rng.choice(["foo", "xx", "X", "rxy", "cccx", "u4", "hadamard"]))[0]
            elif kind == "unknown_backend":
                c.run(backend=rng.choice(["nope", "", "NumPy", "qiskit"]))
            elif kind == "unknown_returns":
                c.run(backend="numpy", returns=rng.choice(["nope", "", "state"]), **({"shots": 3} if rng.random() < .5 else {}))
            elif kind == "shots_type":
                c.run(backend="numpy", shots=rng.choice(["3", 1.5, [1]]))
            elif kind == "unknown_cache":
                c.make_cache(backend="nope")
            elif kind == "unknown_default":
                c.set_default_backend(rng.choice(["nope", "", 3]))
            elif kind == "add_other":
                c + rng.choice([1, "x", None, [c], c.ops] + lookalikes)
            elif kind == "iadd_other":
                x = c
                x += rng.choice([1, "x", None, [1], c.ops, (1,)] + lookalikes)
            elif kind == "dagger":
                if e.model.unitary_only():
                    raise ValueError("skip")
                c.dagger()
            elif kind == "run_with":
                c.run_with_nope()
            else:
                # a circuit whose run is refused: the attempt happens on a copy plus an invalid pair, then on the operands' result
                bad = c.copy()
                bad.cx[rng.choice([(0, 0), (slice(0, 2), 0) if n > 1 else (0, 0), (slice(None), slice(None)) if c.n_qubits else (1, 1), 0, (0, 1, 2)])]
                bad.run(backend=rng.choice(["numpy", self.shared[0]]))

        self.log(f"{e.label}: rejected operation {kind}")
        try:
            attempt()
        except ok_errors:
            t.ev("rejected_" + kind)
        else:
            self.fail(f"{kind}: the operation was not rejected", circuit=repr(c)[:500])
        if len(c.ops) != len(ops0) or any(a is not b for a, b in zip(c.ops, ops0)) or [str(g) for g in c.ops] != txt0:
            self.fail(f"{kind}: a rejected operation changed the gates", before=txt0, after=[str(g) for g in c.ops])
        if c.n_qubits != n0:
            self.fail(f"{kind}: a rejected operation changed the qubit count", before=n0, after=c.n_qubits)
        if c.get_default_backend_name() != d0:
            self.fail(f"{kind}: a rejected operation changed the default backend", before=d0, after=c.get_default_backend_name())
        if rng.random() < .4 and e in self.pool:
            self.run(e)


def plan(tier):
    k = 3 if tier == "quick" else 25
    return [("hist", 1200 * k)]


def case(t, kind):
    rng = t.rng
    h = H(t, W, nmax=rng.choice([1, 2, 3]), nonunitary=.08)
    for _ in range(rng.randint(6, 30)):
        h.step()
        h.check_structure()
    h.final()
    h.check_structure()
    t.sample = " ; ".join(t.trace[:12])
    t.key(tuple(h.sig), t.trace[-1])
