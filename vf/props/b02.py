"""B02: symbolic unitary (differential against the reference)."""
import warnings

import mpmath
import numpy as np
import sympy
from blueqat import Circuit

from .. import gen, ref

RULE = ("random unitary circuits (<=4 qubits) with numeric parameters, and with symbols (plain, real, named like the backend's internal theta/phi/lambd, and expressions of them) substituted "
        "before and after; ignore_global; measurement/reset skipped with a warning; distinct = structure")
REQUIRED = ["symbolic_ignore_global", "numeric", "symbolic", "internal_names", "ignore_global", "warned", "entries_compared"]
NAMES = gen.UNITARY


def sympy_abs_fails(e):
    """Whether SymPy itself (here 1.3) cannot take the modulus of the entry."""
    try:
        abs(e)
    except Exception:
        return True
    return False


def plan(tier):
    k = 1 if tier == "quick" else 15
    return [("numeric", 260 * k), ("gate", len(NAMES) * (3 if tier == "quick" else 20)), ("symbolic", 170 * k), ("ignore", 60 * k), ("skip", 60 * k)]


_FUN = {sympy.exp: mpmath.exp, sympy.sin: mpmath.sin, sympy.cos: mpmath.cos, sympy.tan: mpmath.tan, sympy.Abs: abs, sympy.conjugate: mpmath.conj,
        sympy.re: mpmath.re, sympy.im: mpmath.im, sympy.sign: mpmath.sign, sympy.log: mpmath.log, sympy.arg: mpmath.arg}


CASE_CPU_S = 12      # SymPy's assumption queries blow up on a few inputs: left out and counted
SLOW_SHARE = .05


def value(e, memo):
    """Numeric value of an expression by structural recursion (evalf loses entries whose summands cancel)."""
    if e in memo:
        return memo[e]
    if not isinstance(e, sympy.Basic):
        v = mpmath.mpmathify(e)
    elif e is sympy.I:
        v = mpmath.mpc(0, 1)
    elif e.is_Float:
        v = mpmath.mpf(e._mpf_)
    elif e.is_Rational:
        v = mpmath.mpf(e.p) / e.q
    elif e.is_Add:
        v = mpmath.fsum([value(a, memo) for a in e.args])
    elif e.is_Mul:
        v = mpmath.fprod([value(a, memo) for a in e.args])
    elif e.is_Pow:
        v = mpmath.power(value(e.base, memo), value(e.exp, memo))
    elif e.func in _FUN:
        v = _FUN[e.func](value(e.args[0], memo))
    else:
        v = mpmath.mpmathify(sympy.N(e, 40))
    memo[e] = v
    return v


def to_np(m, sub=()):
    """The matrix with the symbols' values put in."""
    with mpmath.workdps(40):
        memo = {s: mpmath.mpmathify(v) for s, v in sub}
        return np.array([[complex(value(x, memo)) for x in row] for row in m.tolist()], dtype=complex)


def compare(t, u, ops, n, what, phase=False, values=(), **info):
    got = to_np(u, values)
    want = ref.unitary(ops, n)
    t.check(got.shape == want.shape, "the unitary has a wrong shape", got=got.shape, expected=want.shape, circuit=gen.show(n, ops))
    eq = ref.same_up_to_phase if phase or any(ref.canon(o[0]) == "cu1" for o in ops) else ref.same
    # Angles within 1e-7 of a simple multiple of pi are replaced by it (sympy.nsimplify): intended simplification.
    t.check(eq(got, want, 1e-6), f"{what}: the symbolic unitary differs from the circuit's", circuit=gen.show(n, ops), got=np.round(got, 6), expected=np.round(want, 6), **info)
    t.ev("entries_compared", got.size)


def case(t, kind):
    rng = t.rng
    if kind == "gate":
        name = NAMES[t.idx % len(NAMES)]
        n = rng.randint(ref.arity(name), 3)
        ops = [(name, gen.gen_params(rng, name), gen.gen_target(rng, name, n))]
        if rng.random() < .5:
            ops.append((name, gen.gen_params(rng, name), gen.gen_target(rng, name, n)))
        ops, n = gen.make_valid(ops, n)
        if n > 4:
            return
        compare(t, gen.build(Circuit, n, ops, rng).to_unitary(), ops, n, "numeric")
        t.ev("numeric")
        t.key("gate", n, gen.structure(ops))
        t.sample = gen.show(n, ops)
        return
    if kind in ("numeric", "ignore"):
        nmax = rng.choice([1, 2, 2, 3, 3, 4])
        n = rng.randint(1, nmax)
        ops = gen.gen_ops(rng, n, rng.randint(1, 6 if n < 3 else 4))
        ops, n = gen.make_valid(ops, n)
        if n > 4:
            return
        c = gen.build(Circuit, n, ops, rng)
        if kind == "ignore":
            try:
                u = c.to_unitary(ignore_global=True)
            except Exception:
                if not any(sympy_abs_fails(e) for e in c.to_unitary()):
                    raise
                t.ev("sympy_fault")
                return
            compare(t, u, ops, n, "ignore_global", phase=True)
            m = to_np(u)
            for i in range(2 ** n):
                if abs(m[i, i]) > 1e-6:
                    if all(abs(m[j, j]) < 1e-12 or j >= i for j in range(2 ** n)):
                        t.check(abs(m[i, i].imag) < 1e-9 and m[i, i].real > 0, "ignore_global does not make the first diagonal entry real and positive", circuit=gen.show(n, ops), got=m[i, i])
                    break
            compare(t, c.to_unitary(), ops, n, "after ignore_global")
            t.ev("ignore_global")
        else:
            compare(t, c.to_unitary(), ops, n, "numeric")
            t.ev("numeric")
        t.key(kind, n, gen.structure(ops))
        t.sample = gen.show(n, ops)
        return
    if kind == "skip":
        n = rng.randint(1, 3)
        ops = gen.gen_ops(rng, n, rng.randint(1, 4), rich=False)
        full = list(ops)
        full.insert(rng.randrange(len(ops) + 1), (rng.choice(["measure", "m", "reset"]), (), rng.randrange(n)))
        c = gen.build(Circuit, n, full)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            u = c.to_unitary()
        t.check(any(issubclass(x.category, UserWarning) for x in w), "measurement was ignored without a warning", circuit=gen.show(n, full))
        compare(t, u, ops, n, "measurement ignored")
        t.ev("warned")
        t.key("skip", n, gen.structure(full))
        t.sample = gen.show(n, full)
        return
    # symbolic
    n = rng.randint(1, 2) if rng.random() < .8 else 3
    internal = rng.random() < .4
    names = ["theta", "phi", "lambd"] if internal else ["a", "b", "c"]
    if internal:
        rng.shuffle(names)
    kwargs = {"real": True} if rng.random() < .3 else {}
    syms = [sympy.Symbol(x, **kwargs) for x in names]
    vals = [rng.choice([0.3, -1.25, 2.0, rng.uniform(-4, 4)]) for _ in syms]
    sub = list(zip(syms, vals))
    ops, num = [], []
    cands = [g for g in NAMES if ref.nparams(g) and ref.arity(g) <= n]
    for _ in range(rng.randint(1, 3)):
        name = rng.choice(cands if rng.random() < .75 else [g for g in NAMES if ref.arity(g) <= n])
        tg = gen.gen_target(rng, name, n, rich=rng.random() < .3)
        ps, qs = [], []
        for _ in range(ref.nparams(name)):
            s = rng.choice(syms)
            e = rng.choice([s, s, s, -s, 2 * s, s + rng.choice(syms), s / 2 + sympy.pi / 3, s - 1])
            if rng.random() < .15:
                e = gen.angle(rng)
            ps.append(e)
            qs.append(float(e.subs(sub, simultaneous=True)) if isinstance(e, sympy.Basic) else e)
        ops.append((name, tuple(ps), tg))
        num.append((name, tuple(qs), tg))
    num, m = gen.make_valid(num, n)
    if len(num) != len(ops) or m != n:
        return
    c = gen.build(Circuit, n, ops)
    u = c.to_unitary()
    t.check(u.free_symbols <= set(syms), "symbols of the backend remain in the unitary", got=u.free_symbols, circuit=str(c))
    if rng.random() < .2:
        v = u.subs(sub, simultaneous=True)
        t.check(not v.free_symbols, "symbols remain after substitution", got=v.free_symbols, circuit=str(c))
    compare(t, u, num, n, "substituted afterwards", symbolic=str(c), values=sub)
    compare(t, gen.build(Circuit, n, num).to_unitary(), num, n, "substituted before")
    if rng.random() < .3:
        w = c.to_unitary(ignore_global=True)
        compare(t, w, num, n, "ignore_global, substituted afterwards", phase=True, symbolic=str(c), values=sub)
        t.ev("symbolic_ignore_global")
    t.ev("symbolic")
    if internal:
        t.ev("internal_names")
    t.key("symbolic", n, str(c))
    t.sample = str(c)
