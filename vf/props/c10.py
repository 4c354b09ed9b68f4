"""C10: printed forms evaluate to equal objects."""
import fractions

import numpy as np
from blueqat import Circuit
from blueqat.experimental import Ops
from blueqat.experimental.operations import GATE_SET as OPS_GATES
from blueqat.pauli import Expr, I, Term, X, Y, Z

from .. import gen, ref
from ..paulis import PNS, big_expr, canonical, gen_expr, gen_pauli, gen_term, matrix_of, same_op, terms_of

RULE = ("random circuits and operation lists over all gates, aliases, index styles and parameters (denormal, huge, negative zero, NumPy scalars, integers); random Pauli operators, terms and "
        "expressions with real/complex/negative/dyadic/tiny coefficients; eval(repr(x)) compared; distinct = structure / printed form")
REQUIRED = ["wide_and_long", "large_sums", "circuit_roundtrip", "ops_roundtrip", "pauli_roundtrip", "term_roundtrip", "expr_roundtrip", "empty_circuit", "result_compared", "zero_expr", "long_targets"]


def plan(tier):
    k = 5 if tier == "quick" else 30
    return [("circuit", 1500 * k), ("ops", 500 * k), ("pauli", 1800 * k)]


def odd_param(rng):
    return rng.choice([gen.angle(rng), gen.angle(rng), -0.0, 1e-300, 1.23456789012345678e-5, 1e16, 123456789.123456789, -1e22, 0, -3, np.float64(0.1), np.int64(-2), 1 / 3,
                       np.float64(1e-17), True, fractions.Fraction(1, 3) if rng.random() < .3 else .1])


def case(t, kind):
    rng = t.rng
    if kind in ("circuit", "ops"):
        names = gen.UNITARY + ["measure", "m", "reset"]
        if kind == "ops":
            names = [g for g in names if g in OPS_GATES]
        n0, ops, n = gen.program(rng, nmax=6, maxops=rng.choice([0, 3, 12]) or 1, names=names)
        ops = [(o[0], tuple(odd_param(rng) for _ in o[1]) if rng.random() < .5 else o[1], o[2]) for o in ops]
        if rng.random() < .03:
            # a wide register and many gates
            n = rng.randint(15, 130)
            ops = gen.gen_ops(rng, n, rng.randint(20, 150), names)
            n0 = rng.choice([0, n])
            ops, n = gen.make_valid(ops, n0)
            t.ev("wide_and_long")
        elif rng.random() < .1:
            # long lists of targets
            n = max(n, rng.randint(5, 14))
            one = [g for g in names if ref.arity(g) == 1]
            for _ in range(rng.randint(1, 3)):
                g = rng.choice(one)
                ops.append((g, gen.gen_params(rng, g), tuple(gen.gen_sel(rng, n) for _ in range(rng.randint(5, 16)))))
            ops, n = gen.make_valid(ops, n)
            n0 = n
            t.ev("long_targets")
        if rng.random() < .05:
            ops = []
            n = n0
            t.ev("empty_circuit")
        cls = Circuit if kind == "circuit" else Ops
        c = cls(n0)
        for o in ops:
            c = gen.apply_op(c, o)
        text = repr(c)
        try:
            d = eval(text, {"Circuit": Circuit, "Ops": Ops})
        except Exception as e:
            t.fail(f"the printed form cannot be evaluated: {type(e).__name__}: {e}", text=text)
        t.check(type(d) is cls and d.n_qubits == c.n_qubits, "the printed form has another qubit count", text=text, got=getattr(d, "n_qubits", None), expected=c.n_qubits)
        t.check(len(d.ops) == len(c.ops), "the printed form has another number of gates", text=text)
        for a, b, o in zip(d.ops, c.ops, ops):
            t.check(a.lowername == b.lowername == ref.canon(o[0]), "the printed form has another gate", text=text, op=gen.show(0, [o]))
            t.check(len(a.params) == len(b.params) and all(float(x) == float(y) for x, y in zip(a.params, o[1])), "the printed form has other parameters", text=text,
                    got=a.params, expected=o[1])
            for m in (n, n + 2):
                r = [ref.resolve(o[0], x, m) for x in (a.targets, o[2])]
                t.check(r[0] == r[1], "the printed form has other targets", text=text, op=o, got=r[0], expected=r[1])
        if kind == "circuit":
            t.ev("circuit_roundtrip")
            if n <= 5 and not any(ref.canon(o[0]) in ref.NONUNITARY for o in ops):
                t.check(ref.same(c.run(), d.run(), 1e-9), "the printed form gives another result", text=text)
                t.ev("result_compared")
        else:
            t.ev("ops_roundtrip")
        t.key(kind, gen.structure(ops), n0)
        t.sample = text
        return
    which = rng.choice(["pauli", "term", "expr", "expr"])
    if which == "pauli":
        x = gen_pauli(rng, 5)
    elif which == "term":
        x = gen_term(rng, 5)
    else:
        x = gen_expr(rng, 5)
        if rng.random() < .04:
            x = big_expr(rng, rng.choice([5, 20, 120]), rng.randint(10, 80), rng.random() < .8)
            t.ev("large_sums")
        elif rng.random() < .05:
            x = rng.choice([Expr.zero(), x - x, X[0] - X[0]])
            t.ev("zero_expr")
    text = repr(x)
    try:
        y = eval(text, dict(PNS))
    except Exception as e:
        t.fail(f"the printed form cannot be evaluated: {type(e).__name__}: {e}", text=text)
    t.check(same_op(x, y), "the printed form denotes another operator", text=text, got=repr(y))
    # Like terms are summed up in another order: then equality holds up to rounding only.
    if len(canonical(x)) < len(terms_of(x)) and not (x == y):
        t.ev("rounding")
        return
    t.check((x == y) is True and (y == x) is True and not (x != y), "the printed form evaluates to an object that is not equal", text=text, got=repr(y), types=(type(x), type(y)))
    t.ev(which + "_roundtrip")
    t.key(text)
    t.sample = text
