"""B04: Qiskit bridge: unitary, counts, options; generated text backends."""
import sys
import types
from collections import Counter

import numpy as np
from blueqat import BlueqatGlobalSetting, Circuit
from blueqat.backends.qasm_parser_backend_generator import generate_backend

from .. import gen, measure, qasm, ref

RULE = ("random circuits of all gates through the ibmq backend: the Qiskit circuit's operator (or record densities with measurement and reset, instruction by instruction) against the reference, Aer counts against the exact "
        "outcome distribution, a recording Aer subclass for what reaches Qiskit, all return forms, blocked and broken imports; generated backends with recorders; distinct = structure and options")
REQUIRED = ["unitary_compared", "density_compared", "counts_judged", "counts_asymmetric", "default_shots", "given_backend", "options_passed", "job", "result", "draw", "import_blocked", "import_broken", "bad_returns",
            "large_histograms", "recorder_runs", "recorder_raised"]


def plan(tier):
    k = 3 if tier == "quick" else 20
    return [("unitary", 250 * k), ("density", 120 * k), ("counts", 160 * k), ("options", 60 * k), ("forms", 40 * k), ("imports", 12), ("recorder", 200 * k)]


def prepare():
    import qiskit          # noqa: F401  (imported once, before the workers are forked)
    from qiskit import Aer, execute  # noqa: F401


def prog_of(qc):
    """The instructions of a Qiskit circuit in the form of qasm.parse."""
    from qiskit.quantum_info import Operator
    prog = []
    for ins in qc.data:
        qs = tuple(qc.find_bit(q).index for q in ins.qubits)
        name = ins.operation.name
        if name == "measure":
            prog.append(("measure", qs[0], qc.find_bit(ins.clbits[0]).index))
        elif name == "reset":
            prog.append(("reset", qs[0]))
        elif name != "barrier":
            prog.append(("u", Operator(ins.operation).data, qs))
    return prog


def run(c, rng, *args, **kw):
    return c.run_with_ibmq(*args, **kw) if rng.random() < .5 else c.run(*args, backend="ibmq", **kw)


def gen_measured(rng, nmax=4, final=.5):
    n0, ops, n = measure.gen_meas_program(rng, nmax, 8, p=.25, max_meas=4)
    if rng.random() < final or not any(ref.canon(o[0]) == "measure" for o in ops):
        n = max(n, 1)
        ops = ops + [("m", (), rng.choice([slice(None), rng.randrange(n), tuple(rng.sample(range(n), rng.randint(1, n)))]))]
        ops, n = gen.make_valid(ops, max(n0, n))
        n0 = n
    return n0, ops, n


def recording_backend(log, falsy=False):
    from qiskit_aer import AerSimulator

    class Rec(AerSimulator):
        def run(self, circuits, *a, **kw):
            log.append((circuits, a, dict(kw)))
            return super().run(circuits, *a, **kw)

    class Falsy(Rec):
        """A backend is used because it was given, whatever its truth value."""

        def __bool__(self):
            return False
    return Rec() if not falsy else Falsy()


def judge_counts(t, cnt, n0, ops, n, shots):
    t.check(type(cnt) is Counter, "the result is not a Counter", got=type(cnt))
    t.check(sum(cnt.values()) == shots, "the counts do not sum to the shots", circuit=gen.show(n0, ops), got=dict(cnt), shots=shots)
    t.check(all(isinstance(k, str) and len(k) == n and set(k) <= {"0", "1"} for k in cnt), "the keys are not bit strings with one character per qubit", circuit=gen.show(n0, ops), got=dict(cnt))
    dist = ref.record_dist(ref.branches(ops, n))
    # Aer works with double precision and its own transpiled gates; impossible outcomes have probability < 1e-12
    bad = ref.dist_ok({tuple(map(int, k)): v for k, v in cnt.items()}, dist, shots)
    t.check(bad is None, "the counts are incompatible with the circuit's outcomes (qubit 0 first)", circuit=gen.show(n0, ops), got=dict(cnt), complaint=bad, probabilities={measure.key(k): v for k, v in dist.items()})
    t.ev("counts_judged")
    if any(abs(dist.get(k[::-1], 0) - p) > .05 for k, p in dist.items()):
        t.ev("counts_asymmetric")


def case(t, kind):
    rng = t.rng
    if kind == "recorder":
        return recorder(t, rng)
    if kind == "imports":
        return imports(t, rng)
    if kind == "unitary":
        n0, ops, n = gen.program(rng, rng.choice([1, 2, 3, 4, 5]), 10)
        if t.idx < 3 * len(gen.UNITARY):
            name = gen.UNITARY[t.idx % len(gen.UNITARY)]
            n = rng.randint(ref.arity(name), 4)
            ops = [(name, gen.gen_params(rng, name), gen.gen_target(rng, name, n))]
            ops, n = gen.make_valid(ops, n)
            n0 = n
        if not 1 <= n <= 6:
            return
        qc = run(gen.build(Circuit, n0, ops, rng), rng, returns="qiskit_circuit")
        from qiskit import QuantumCircuit
        t.check(isinstance(qc, QuantumCircuit), "'qiskit_circuit' returns no Qiskit circuit", got=type(qc))
        t.check(qc.num_qubits == n and qc.num_clbits == n, "the Qiskit circuit has another size", got=(qc.num_qubits, qc.num_clbits), expected=n)
        prog = prog_of(qc)
        t.check(all(p[0] == "u" for p in prog), "measurement appeared", circuit=gen.show(n0, ops))
        t.check(ref.same_up_to_phase(qasm.unitary(prog, n), ref.unitary(ops, n), 1e-7), "the Qiskit circuit has another unitary", circuit=gen.show(n0, ops), got=str(qc.draw("text")))
        t.ev("unitary_compared")
        t.key("u", n, gen.structure(ops))
        t.sample = gen.show(n0, ops)
        return
    if kind == "counts" and t.idx < 12:
        return large(t, rng)
    n0, ops, n = gen_measured(rng, 3 if kind == "density" else 4, .9 if kind == "counts" else .5)
    if n > 5 or kind != "density" and not any(ref.canon(o[0]) == "measure" and ref.resolve(o[0], o[2], n) for o in ops):      # Qiskit has no counts without measurement
        return
    c = gen.build(Circuit, n0, ops, rng)
    text = c.to_qasm()
    if kind == "density":
        qc = run(c, rng, returns="qiskit_circuit")
        got = qasm.densities(prog_of(qc), n, n)
        want = {}
        for p, rec, v in ref.branches(ops, n):
            want[rec] = want.get(rec, 0) + p * np.outer(v, v.conj())
        t.check(qasm.same_densities(got, want, 1e-6), "the Qiskit circuit has other outcomes or states", circuit=gen.show(n0, ops), got=str(qc.draw("text")))
        t.ev("density_compared")
    elif kind == "counts":
        kw = {"seed_simulator": rng.randrange(2 ** 31)}
        r = rng.random()
        shots = rng.choice([1, 7, 100, 3000, np.int64(17), np.int32(50)])
        if r < .3:
            shots = 1024
            t.ev("default_shots")
        else:
            kw["shots"] = shots
        if rng.random() < .3:
            kw["returns"] = "shots"
        log = []
        if rng.random() < .4:
            dev = recording_backend(log, rng.random() < .3)
            cnt = run(c, rng, dev, **kw) if rng.random() < .5 else run(c, rng, qiskit_backend=dev, **kw)
            t.check(len(log) == 1, "the given Qiskit backend was not run exactly once", got=len(log))
            t.ev("given_backend")
        else:
            cnt = run(c, rng, **kw)
        judge_counts(t, cnt, n0, ops, n, shots)
    elif kind == "options":
        log = []
        dev = recording_backend(log, rng.random() < .3)
        opts = {"seed_simulator": rng.randrange(10 ** 6)}
        if rng.random() < .5:
            opts["memory"] = True
        if rng.random() < .5:
            opts["optimization_level"] = rng.randrange(2)
        shots = rng.randint(1, 50)
        res = run(c, rng, qiskit_backend=dev, shots=shots, returns="qiskit_result", **opts)
        t.check(len(log) == 1, "the given Qiskit backend was not run exactly once", got=len(log))
        got = log[0][2]
        t.check(got.get("shots") == shots and got.get("seed_simulator") == opts["seed_simulator"], "shots or options did not reach Qiskit", got=got, given=opts, shots=shots)
        if "memory" in opts:
            t.check(got.get("memory") is True and len(res.get_memory()) == shots, "the memory option did not reach Qiskit", got=got)
        t.ev("options_passed")
        t.check(sum(res.get_counts().values()) == shots, "'qiskit_result' has other shots", got=res.get_counts())
        again = run(c, rng, qiskit_backend=dev, shots=shots, returns="shots", **opts)
        t.check(again == Counter({k[::-1]: v for k, v in res.get_counts().items()}), "with the same seed, 'shots' is not the bit-reversed 'qiskit_result'", result=res.get_counts(), shots=again)
        t.ev("result")
    else:
        shots = rng.randint(1, 30)
        job = run(c, rng, shots=shots, returns="qiskit_job")
        from qiskit.providers import JobV1
        t.check(isinstance(job, JobV1), "'qiskit_job' returns no job", got=type(job))
        cnt = Counter({k[::-1]: v for k, v in job.result().get_counts().items()})
        judge_counts(t, cnt, n0, ops, n, shots)
        t.ev("job")
        qc = run(c, rng, returns="qiskit_circuit")
        kw = rng.choice([{}, {"output": "text"}, {"output": "text", "reverse_bits": True}])
        d = run(c, rng, returns="draw", **kw)
        t.check(str(d) == str(qc.draw(**kw)), "'draw' differs from drawing the Qiskit circuit", options=kw, got=str(d))
        t.ev("draw")
        bad = rng.choice(["statevector", "Shots", "", "qiskit", 1, "statevector_and_shots", "counts"])
        try:
            r = run(c, rng, returns=bad)
        except ValueError:
            t.ev("bad_returns")
        else:
            t.fail("an unknown return form was accepted", returns=bad, got=r)
        t.check(run(c, rng, returns="_exception") is None, "'_exception' is not None although Qiskit can be imported")
    t.check(c.to_qasm() == text and len(c.ops) == len(ops), "running on Qiskit changed the circuit", circuit=gen.show(n0, ops))
    t.key(kind, n, gen.structure(ops))
    t.sample = gen.show(n0, ops)


def large(t, rng):
    """Large histograms: many shots, many outcomes, some of them rare."""
    n = rng.randint(3, 7)
    shots = rng.choice([4096, 10000, 20000, 65536])
    ops = [("h", (), i) if rng.random() < .6 else ("ry", (rng.choice([.02, .05, .1, 1.]),), i) for i in range(n)]
    if rng.random() < .5:
        ops.append(("cx", (), tuple(rng.sample(range(n), 2))))
    ops.append(("m", (), slice(None)))
    c = gen.build(Circuit, n, ops, rng)
    kw = {} if rng.random() < .5 else {"returns": "shots"}
    judge_counts(t, run(c, rng, shots=shots, seed_simulator=rng.randrange(2 ** 31), **kw), n, ops, n, shots)
    t.ev("large_histograms")
    t.key("large", n, shots, gen.structure(ops))
    t.sample = f"{shots} shots: {gen.show(n, ops)}"


def imports(t, rng):
    n0, ops, n = gen_measured(rng, 2)
    c = gen.build(Circuit, n0, ops, rng)
    saved = {k: sys.modules[k] for k in list(sys.modules) if k == "qiskit" or k.startswith("qiskit.")}
    broken = t.idx % 2
    if broken:
        class M(types.ModuleType):
            def __getattr__(self, name):
                raise RuntimeError("broken installation")
        fake = M("qiskit")
    else:
        fake = None
    try:
        sys.modules["qiskit"] = fake
        for returns in ("shots", "qiskit_circuit", "draw", None, "qiskit_job", "qiskit_result"):
            try:
                r = run(c, rng, returns=returns)
            except ImportError:
                t.check(not broken, "a broken installation is reported as a missing one")
            except ValueError:
                t.check(broken, "missing Qiskit is not reported as ImportError")
            else:
                t.fail("ran without Qiskit", returns=returns, got=r)
        e = run(c, rng, returns="_exception")
        t.check(isinstance(e, RuntimeError if broken else ImportError), "'_exception' does not return what the import raised", got=repr(e))
        t.ev("import_broken" if broken else "import_blocked")
    finally:
        sys.modules.update(saved)
        if "qiskit" not in saved:
            sys.modules.pop("qiskit", None)
    t.check(run(c, rng, returns="_exception") is None, "the import problem is remembered")
    t.key("imports", broken, gen.structure(ops))
    t.sample = "import problem: " + gen.show(n0, ops)


class Boom(Exception):
    pass


def recorder(t, rng):
    n0, ops, n = gen_measured(rng, 4) if rng.random() < .5 else gen.program(rng, 5, 10)
    c = gen.build(Circuit, n0, ops, rng)
    calls = []
    result = object()
    raises = rng.random() < .2

    def runner(text, *args, **kwargs):
        calls.append((text, args, kwargs))
        if raises:
            raise Boom()
        return result
    make = generate_backend(runner)
    named = rng.random() < .5
    name = "vf_recorder"
    if named:
        BlueqatGlobalSetting.register_backend(name, make)
    try:
        want = []
        for _ in range(rng.randint(1, 3)):
            args = tuple(rng.choice([1, "a", None, (2, 3)]) for _ in range(rng.randint(0, 2)))
            kwargs = {k: rng.choice([1, "x", None, [1]]) for k in rng.sample(["shots", "returns", "token", "url", "output_prologue"], rng.randint(0, 3))}
            text = c.to_qasm()
            try:
                if named:
                    r = c.run(*args, backend=name, **kwargs) if rng.random() < .5 else getattr(c, "run_with_" + name)(*args, **kwargs)
                else:
                    r = c.run(*args, backend=make(), **kwargs)
            except Boom:
                t.check(raises, "raised although the runner did not")
                t.ev("recorder_raised")
            else:
                t.check(not raises and r is result, "the runner's result is not returned", got=repr(r))
            want.append((text, args, kwargs))
            t.check(calls == want, "the runner was not called exactly once with the circuit's OpenQASM and the caller's options", got=calls, expected=want)
            t.ev("recorder_runs")
            if rng.random() < .3:
                c.x[rng.randrange(max(n, 1))]
            elif rng.random() < .3:
                c = c.copy()
    finally:
        if named:
            BlueqatGlobalSetting.unregister_backend(name)
    t.key("recorder", named, gen.structure(ops))
    t.sample = "recorder: " + gen.show(n0, ops)
