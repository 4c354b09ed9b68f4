"""A01: Pauli arithmetic against dense matrices, operation by operation."""
import operator
from fractions import Fraction

import numpy as np
from blueqat import Circuit
from blueqat.pauli import Expr, I, Term, X, Y, Z

from .. import paulis as P

RULE = ("random expression trees over Pauli operators, terms, expressions (simplified or not) and Python/NumPy numbers on either side; every operation's result is read through its terms and compared with the "
        "combination of the operands' dense matrices; all operand-type pairs of each operator are enumerated too, as are nearly cancelling sums and operands of different sizes; distinct = operation and operands")
REQUIRED = ["refused", "asked_other", "large_sums", "long_chains", "large_powers", "high_powers", "mul", "add", "sub", "div", "neg", "pow", "zero_division", "negative_power", "number_left", "numpy_left", "in_place", "operands_unchanged", "pairs", "near_cancellation", "mixed_sizes"]
ASSUMES = ["the independent reader of terms in vf/paulis.py"]
N = 3
NUMS = [0, 1, -1, 2, 0.5, -1.25, 1j, 2 - 1j, 0.0, 1.0, np.float64(0.75), np.int64(3), np.complex128(1 + 2j), np.float32(0.5), 3.3, Fraction(1, 2)]
OPS = {"mul": operator.mul, "add": operator.add, "sub": operator.sub}


def plan(tier):
    k = 4 if tier == "quick" else 30
    return [("tree", 700 * k), ("pairs", 60 * k), ("errors", 120 * k), ("foreign", 20 * k), ("near", 150 * k), ("mixed", 300 * k), ("high", 40 * k), ("large", 12 * k)]


def mat(x):
    if isinstance(x, (Expr, Term)) or hasattr(x, "op"):
        return P.matrix_of(x, N)
    return complex(x) * np.eye(2 ** N)


def snapshot(x):
    return repr(x), (P.terms_of(x) if not isinstance(x, (int, float, complex, Fraction, np.number)) else complex(x))


def judge(t, res, want, scale, what, *operands):
    t.check(isinstance(res, (Expr, Term)) or hasattr(res, "op"), f"{what}: the result is no Pauli object", got=repr(res), operands=operands)
    got = P.matrix_of(res, N)
    t.check(bool(np.all(np.isfinite(got))) and float(np.max(np.abs(got - want))) <= 1e-10 * max(scale, 1e-300), f"{what}: the result denotes another operator", got=repr(res), operands=[repr(o) for o in operands],
            types=[type(o).__name__ for o in operands])


def size(x, m):
    """A bound of the terms' coefficients, which rounding is relative to."""
    if isinstance(x, (Expr, Term)) or hasattr(x, "op"):
        return sum(abs(c) for c, _ in P.terms_of(x)) * 2 ** N
    return float(np.max(np.abs(m))) * 2 ** N


def binary(t, name, a, b, inplace=False):
    f = OPS[name]
    sa, sb = snapshot(a), snapshot(b)
    ma, mb = mat(a), mat(b)
    if inplace:
        f = {"mul": operator.imul, "add": operator.iadd, "sub": operator.isub}[name]
        t.ev("in_place")
    res = f(a, b)
    want = ma @ mb if name == "mul" else ma + mb if name == "add" else ma - mb
    na, nb = size(a, ma), size(b, mb)
    judge(t, res, want, na * nb if name == "mul" else na + nb, name, a, b)
    t.check(snapshot(a) == sa and snapshot(b) == sb, f"{name} modified an operand", before=(sa, sb), after=(repr(a), repr(b)))
    t.ev(name)
    t.ev("operands_unchanged")
    if not isinstance(a, (Expr, Term)) and not hasattr(a, "op"):
        t.ev("numpy_left" if isinstance(a, np.generic) else "number_left")
    return res


def gen_operand(rng, dyadic=False):
    r = rng.random()
    if r < .3:
        return P.gen_pauli(rng, N)
    if r < .65:
        return P.gen_term(rng, N, dyadic=dyadic)
    return P.gen_expr(rng, N, rng.randint(0, 4), dyadic)


def fine(x):
    ts = P.terms_of(x)
    return len(ts) <= 40 and all(abs(c) < 1e8 for c, _ in ts) and all(len(o) < 40 for _, o in ts)


def power(t, x, n):
    m = mat(x)
    want = np.linalg.matrix_power(m, int(n))
    s = snapshot(x)
    absm = np.linalg.norm(m)
    # the terms of a non-normalised operator bound the error, not its norm
    bound = sum(abs(c) for c, _ in P.terms_of(x)) ** int(n) * 2 ** (N / 2)
    judge(t, x ** n, want, max(absm ** int(n), bound), "pow", x, n)
    t.check(snapshot(x) == s, "pow modified its operand", before=s, after=repr(x))
    t.ev("pow")


def number(rng):
    if rng.random() < .6:
        return rng.choice(NUMS)
    return rng.choice([rng.uniform(-3, 3), complex(rng.uniform(-2, 2), rng.uniform(-2, 2)), rng.randint(-5, 5), np.float64(rng.uniform(-3, 3)), np.int32(rng.randint(-4, 4)), np.complex64(1j)])


def large(t, rng):
    """Sums of many terms and products of many factors, on many qubits: compared in the Pauli basis."""
    n = rng.choice([2, 3, 6, 12, 40, 70])
    def judge_canon(res, want, bound, what, *operands):
        t.check(isinstance(res, (Expr, Term)), f"{what}: the result is no Pauli object", got=type(res))
        dev = P.canon_dev(P.canonical(res), want)
        t.check(dev <= 1e-12 * bound, f"{what}: the result denotes another operator", deviation=dev, operands=[repr(o)[:1500] for o in operands], got=repr(res)[:1500])
    total = lambda x: sum(abs(c) for c, _ in P.terms_of(x))
    a = P.big_expr(rng, n, rng.randint(8, 30), rng.random() < .6)
    b = rng.choice([lambda: P.big_expr(rng, n, rng.randint(2, 30)), lambda: P.gen_term(rng, n, rng.randint(15, 70)), lambda: P.gen_pauli(rng, n), lambda: P.rewrite(rng, a)])()
    if not isinstance(b, (Expr, Term)):
        b = b.to_term()
    sa, sb = repr(a), repr(b)
    ca, cb = P.canonical(a), P.canonical(b)
    judge_canon(a * b, P.canon_mul(ca, cb), total(a) * total(b), "mul", a, b)
    judge_canon(b * a, P.canon_mul(cb, ca), total(a) * total(b), "mul", b, a)
    judge_canon(a + b, P.canon_add(ca, cb), total(a) + total(b), "add", a, b)
    judge_canon(a - b, P.canon_add(ca, cb, -1), total(a) + total(b), "sub", a, b)
    judge_canon(b - a, P.canon_add(cb, ca, -1), total(a) + total(b), "sub", b, a)
    judge_canon(-a, P.canon_add({}, ca, -1), total(a), "neg", a)
    judge_canon(a / 4, {k: v / 4 for k, v in ca.items()}, total(a), "div", a)
    t.check(repr(a) == sa and repr(b) == sb, "an operand was modified", before=sa[:500], after=repr(a)[:500])
    t.ev("large_sums")
    # a chain of factors, multiplied from either side
    want, x = {(): 1.0 + 0j}, 1.0 * I
    for _ in range(rng.randint(20, 90)):
        p = rng.choice([lambda: P.gen_pauli(rng, rng.choice([1, 2, n]), 0), lambda: P.gen_term(rng, n, rng.randint(1, 3), True) * .5])()
        if rng.random() < .3:
            x, want = p * x, P.canon_mul(P.canonical(p), want)
        else:
            x, want = x * p, P.canon_mul(want, P.canonical(p))
    judge_canon(x, want, max([abs(v) for v in want.values()], default=1e-300) * 10, "chain of products", x)
    judge_canon(x.simplify(), want, max([abs(v) for v in want.values()], default=1e-300) * 10, "chain of products, simplified", x)
    t.ev("long_chains")
    e = P.gen_expr(rng, 3, rng.randint(5, 9), True)
    want = {(): 1}
    for k in range(1, 6):
        want = P.canon_mul(want, P.canonical(e))
        if len(P.terms_of(e)) ** k > 4000:
            break
        judge_canon(e ** k, want, max(total(e), 1e-300) ** k, "pow", e, k)
        t.ev("large_powers")
    t.key("large", sa, sb)
    t.sample = f"{len(a.terms)} terms on {n} qubits"


class Own:
    """An operand of another library, which knows what to do with Pauli objects."""
    __array_ufunc__ = None

    def _r(name):
        return lambda self, other: (name, other)
    __radd__, __rsub__, __rmul__, __rtruediv__, __rpow__ = map(_r, ("add", "sub", "mul", "truediv", "pow"))
    __add__, __sub__, __mul__, __truediv__, __pow__ = map(_r, ("add", "sub", "mul", "truediv", "pow"))


class Alien:
    pass


def foreign(t, rng):
    x = gen_operand(rng)
    own = Own()
    for name in ("add", "sub", "mul", "truediv", "pow", "iadd", "isub", "imul", "itruediv", "ipow"):
        f, plain = getattr(operator, name), name.lstrip("i") if name[0] == "i" else name
        for other in ("ab", None, [1.0], {}, {0}, Alien(), Circuit(1), b"a", P.gen_pauli(rng, N), P.gen_expr(rng, N)):
            if hasattr(other, "to_expr") and plain not in ("truediv", "pow"):
                continue
            for a, b in ((x, other), (other, x))[:1 if name[0] == "i" else 2]:      # a list's own += takes anything iterable
                try:
                    r = f(a, b)
                except TypeError:
                    t.ev("refused")
                else:
                    t.fail("an operand without a meaning here was accepted", operation=name, operands=(repr(a), repr(b)), got=repr(r))
        if plain in ("pow", "truediv"):
            for n in ((.5, 2.0, 1j) if plain == "pow" else (1, 2.5, 1j, np.float64(2))):
                a, b = (x, n) if plain == "pow" else (n, x)
                try:
                    r = f(a, b)
                except TypeError:
                    t.ev("refused")
                else:
                    t.fail("an operand without a meaning here was accepted", operation=name, operands=(repr(a), repr(b)), got=repr(r))
        t.check(f(x, own) == (plain, x), "the other operand's own operator is not asked", operation=name, operand=repr(x))
        if name[0] != "i":
            t.check(f(own, x) == (plain, x), "the other operand's own operator is not asked", operation=name, operand=repr(x))
    t.ev("asked_other")
    t.key("foreign", repr(x))
    t.sample = f"foreign operands of {x!r}"


def case(t, kind):
    rng = t.rng
    if kind == "foreign":
        return foreign(t, rng)
    if kind == "large":
        return large(t, rng)
    if kind == "errors":
        x = gen_operand(rng)
        for z in (0, 0.0, 0j, np.float64(0), np.int64(0), -0.0):
            try:
                r = x / z
            except ZeroDivisionError:
                t.ev("zero_division")
            else:
                t.fail("division by zero did not raise ZeroDivisionError", operand=repr(x), divisor=repr(z), got=repr(r))
        y = x.to_term() if rng.random() < .5 and not isinstance(x, Expr) else x.to_expr()
        for n in (-1, -3, np.int64(-1)):
            try:
                r = y ** n
            except ValueError:
                t.ev("negative_power")
            else:
                t.fail("a negative power did not raise ValueError", operand=repr(y), power=n, got=repr(r))
        t.key("errors", repr(x))
        t.sample = repr(x)
        return
    if kind == "pairs":
        mk = [lambda: rng.choice([X, Y, Z])[rng.randrange(N)], lambda: I, lambda: P.gen_term(rng, N), lambda: P.gen_term(rng, N, 0), lambda: Term((X[0], Y[0]), 1.0), lambda: P.gen_expr(rng, N), lambda: Expr.zero(),
              lambda: P.gen_expr(rng, N, 1), lambda: number(rng), lambda: rng.choice(NUMS)]
        for fa in mk:
            for fb in mk:
                a, b = fa(), fb()
                if all(not isinstance(x, (Expr, Term)) and not hasattr(x, "op") for x in (a, b)):
                    continue
                for name in OPS:
                    binary(t, name, a, b)
                t.ev("pairs")
        for x in [P.gen_pauli(rng, N), P.gen_term(rng, N), P.gen_expr(rng, N)]:
            for d in NUMS:
                if d:
                    judge(t, x / d, mat(x) / complex(d), size(x, None) / abs(complex(d)), "div", x, d)
                    t.ev("div")
        t.key("pairs", t.idx)
        t.sample = "all operand-type pairs"
        return
    if kind == "near":
        # nearly equal coefficients: what is left is small but not zero
        a = rng.choice([lambda: P.gen_term(rng, N), lambda: P.gen_expr(rng, N, rng.randint(1, 5))])()
        f = 1 + rng.choice([1, -1]) * 10. ** -rng.randint(1, 15)
        b = Expr(tuple(Term(x.ops, x.coeff * f) for x in a.to_expr().terms))
        if rng.random() < .3 and len(b.terms) == 1:
            b = b.terms[0]
        if rng.random() < .5:
            a, b = b, a
        r = binary(t, "sub", a, b)
        binary(t, "add", -a, b)
        binary(t, "mul", r, P.gen_term(rng, N))
        if not isinstance(r, Expr):
            r = r.to_expr()
        t.ev("near_cancellation")
        t.key("near", repr(a), f)
        t.sample = f"{a} - {b}"
        return
    if kind == "high":
        # powers beyond the first few
        x = rng.choice([lambda: P.gen_expr(rng, 2, 2), lambda: P.gen_expr(rng, 2, 2), lambda: P.gen_term(rng, 2), lambda: P.gen_expr(rng, 1, 1), lambda: rng.choice([X, Y, Z])[0] + rng.choice([X, Y, Z])[1], lambda: 1 + .5 * X[1]])()
        if all(1e-3 < abs(c) < 30 for c, _ in P.terms_of(x)):
            for n in rng.sample(range(4, 10), 3):
                power(t, x, rng.choice([int, int, np.int64])(n))
            t.ev("high_powers")
        t.key("high", repr(x))
        t.sample = f"powers of {x}"
        return
    if kind == "mixed":
        # operands of different lengths and on different qubits, in both orders
        k = rng.randint(1, N)
        few = P.gen_expr(rng, k, rng.randint(1, 7))
        many = rng.choice([lambda: P.gen_term(rng, N, rng.randint(1, 4)), lambda: P.gen_pauli(rng, N, 0), lambda: P.gen_expr(rng, N, rng.randint(1, 3))])()
        for name in OPS:
            binary(t, name, few, many)
            binary(t, name, many, few)
        t.ev("mixed_sizes")
        t.key("mixed", repr(few), repr(many))
        t.sample = f"{few} with {many}"
        return
    pool = [gen_operand(rng) for _ in range(3)]
    sig = []
    for _ in range(rng.randint(2, 10)):
        op = rng.choice(["mul", "mul", "mul", "add", "add", "sub", "sub", "div", "neg", "pow", "new", "simplify"])
        a = rng.choice(pool)
        if op in OPS:
            b = number(rng) if rng.random() < .35 else rng.choice(pool)
            if rng.random() < .5:
                a, b = b, a
            sig.append((op, repr(a), repr(b)))
            res = binary(t, op, a, b, rng.random() < .2)
        elif op == "div":
            d = number(rng)
            if not d:
                continue
            sig.append((op, repr(a), repr(d)))
            res = a / d
            judge(t, res, mat(a) / complex(d), size(a, None) / abs(complex(d)), "div", a, d)
            t.ev("div")
        elif op == "neg":
            res = -a
            judge(t, res, -mat(a), size(a, None), "neg", a)
            t.ev("neg")
        elif op == "pow":
            if not isinstance(a, (Term, Expr)) or len(P.terms_of(a)) > 4 or any(abs(c) > 30 or abs(c) < 1e-30 and c for c, _ in P.terms_of(a)):
                continue
            power(t, a, rng.choice([0, 1, 2, 3, 4, np.int64(2)]))
            continue
        elif op == "simplify":
            if not hasattr(a, "simplify"):
                continue
            res = a.simplify()
            judge(t, res, mat(a), sum(abs(c) for c, _ in P.terms_of(a)) * 3, "simplify", a)
        else:
            res = gen_operand(rng)
        if fine(res):
            pool.append(res)
            if len(pool) > 8:
                pool.pop(rng.randrange(len(pool)))
    if sig:
        t.key(tuple(sig[:4]))
        t.sample = " ; ".join(f"{o}({a}, {b})" for o, a, b in sig[:4])
