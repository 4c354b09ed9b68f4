"""B03: exported OpenQASM read by an independent interpreter."""
import numpy as np
from blueqat import Circuit

from .. import gen, qasm, ref

RULE = ("random circuits of all gates and aliases with slices, negative and grown indices, numpy and extreme parameters; the text is parsed by an own OpenQASM 2.0 reader whose standard library is expanded "
        "from its source to U and CX; unitary programs compared up to phase, others by the density matrices per record; a share is also read by Qiskit; distinct = structure")
REQUIRED = ["unitary_compared", "density_compared", "qiskit_compared", "body_compared", "each_gate", "statements_read", "tiny_parameters"]
NAMES = gen.UNITARY
ASSUMES = ["cu2, which the standard library lacks, is read as controlled-U2"]


def plan(tier):
    k = 5 if tier == "quick" else 25
    return [("random", 500 * k), ("gate", len(NAMES) * 6 * k), ("measured", 350 * k), ("qiskit", 120 * k)]


def header(n):
    return ["OPENQASM 2.0", 'include "qelib1.inc"', f"qreg q[{n}]", f"creg c[{n}]"]


def read(t, text, n0, ops):
    try:
        return qasm.parse(text)
    except qasm.QasmError as e:
        t.fail(f"the exported text is not a well-formed program: {e}", circuit=gen.show(n0, ops), qasm=text)


def case(t, kind):
    rng = t.rng
    if kind == "gate":
        name = NAMES[t.idx % len(NAMES)]
        n = rng.randint(ref.arity(name), 4)
        ops = gen.scramble(rng, n)[:rng.randint(0, 4)] + [(name, gen.gen_params(rng, name), gen.gen_target(rng, name, n))]
        n0 = rng.choice([0, n])
        ops, n = gen.make_valid(ops, n0)
        t.ev("each_gate")
    elif kind == "measured":
        n = rng.randint(1, 3)
        n0 = rng.choice([0, n])
        ops, k = [], 0
        for _ in range(rng.randint(1, 10)):
            if rng.random() < .4:
                tg = gen.gen_target(rng, "x", n, rich=rng.random() < .5)
                m = len(ref.resolve("x", tg, n) or ())
                if k + m > 7:
                    continue
                k += m
                ops.append((rng.choice(["measure", "m", "reset"]), (), tg))
            else:
                ops += gen.gen_ops(rng, n, 1, rich=rng.random() < .4)
        ops, n = gen.make_valid(ops, n0)
    else:
        nmax = rng.choice([1, 2, 3, 4, 5])
        n0, ops, n = gen.program(rng, nmax, 12, names=[g for g in NAMES if kind != "qiskit" or g not in ("cu2", "cu3")])
    if n == 0 or n > 6:
        return
    c = gen.build(Circuit, n0, ops, rng)
    before = (c.n_qubits, len(c.ops))
    text = c.to_qasm() if rng.random() < .7 else c.run(backend="qasm_output", **({"output_prologue": True} if rng.random() < .5 else {}))
    t.check(isinstance(text, str), "to_qasm does not return text", got=type(text))
    nq, nc, prog, names = read(t, text, n0, ops)
    t.check(nq == n and nc == n, "wrong register sizes are declared", circuit=gen.show(n0, ops), n=n, qasm=text)
    st = qasm.statements(text)
    t.check(st[:4] == header(n) or sorted(st[2:4]) == sorted(header(n)[2:]), "wrong header", qasm=text)
    t.ev("statements_read", len(names))
    if any(abs(float(p)) < 1e-5 and p != 0 for o in ops for p in o[1]):
        t.ev("tiny_parameters")
    if kind == "measured":
        got = qasm.densities(prog, n, n)
        want = {}
        for p, rec, v in ref.branches(ops, n):
            want[rec] = want.get(rec, 0) + p * np.outer(v, v.conj())
        t.check(qasm.same_densities(got, want), "the exported program has other outcomes or states", circuit=gen.show(n0, ops), qasm=text)
        wm = [(q,) for o in ops if ref.canon(o[0]) == "measure" for (q,) in ref.resolve(o[0], o[2], n)]
        gm = [(p[1],) for p in prog if p[0] == "measure"]
        t.check(all(p[1] == p[2] for p in prog if p[0] == "measure"), "a qubit is measured into another bit", qasm=text, circuit=gen.show(n0, ops))
        t.check(wm == gm, "measurements differ", circuit=gen.show(n0, ops), qasm=text)
        t.ev("density_compared")
    else:
        want = ref.unitary(ops, n)
        t.check(all(p[0] == "u" for p in prog), "the exported program has measurements or resets the circuit has not", circuit=gen.show(n0, ops), qasm=text)
        t.check(ref.same_up_to_phase(qasm.unitary(prog, n), want, 1e-8), "the exported program implements another unitary", circuit=gen.show(n0, ops), qasm=text)
        t.ev("unitary_compared")
        if kind == "qiskit":
            from qiskit import QuantumCircuit
            from qiskit.quantum_info import Operator
            u = Operator(QuantumCircuit.from_qasm_str(text)).data
            t.check(ref.same_up_to_phase(u, want, 1e-7), "Qiskit reads another unitary from the exported program", circuit=gen.show(n0, ops), qasm=text)
            t.ev("qiskit_compared")
    body = c.to_qasm(output_prologue=False) if rng.random() < .5 else c.to_qasm(False)
    t.check(qasm.statements(body) == st[4:], "without prologue the text differs by more than its header", circuit=gen.show(n0, ops), full=text, body=body)
    t.check(c.to_qasm() == text, "a second export differs", first=text)
    t.check(before == (c.n_qubits, len(c.ops)), "exporting changed the circuit", circuit=gen.show(n0, ops))
    t.ev("body_compared")
    t.key(kind, n, gen.structure(ops))
    t.sample = gen.show(n0, ops)
