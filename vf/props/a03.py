"""A03: to_matrix() against explicit Kronecker products, dense and in every sparse format."""
import numpy as np
import scipy.sparse as sp
from blueqat.pauli import Expr, I, Term, X, Y, Z

from .. import paulis as P

RULE = ("random operators, terms and expressions up to 7 qubits and 12 terms (unsimplified, zero, constant, Y-rich, terms sharing their X/Y pattern), converted in the dense form and in all seven sparse formats with and without "
        "a larger register; compared with explicit Kronecker products; registers of 12 to 18 qubits by sparse matrix-vector products and sampled columns; exhaustive over all Pauli strings of up to 3 qubits; distinct = operator and register")
FORMATS = ["bsr", "coo", "csc", "csr", "dia", "dok", "lil"]
REQUIRED = ["dense", "padded", "zero", "constant", "unknown_format", "pauli", "term", "expr", "all_strings", "huge"] + FORMATS


def plan(tier):
    k = 4 if tier == "quick" else 25
    return [("rand", 420 * k), ("string", 90 if tier == "quick" else 900), ("wide", 24 * k), ("edge", 60 * k), ("huge", 16 if tier == "quick" else 120)]


def judge(t, x, n=None, formats=None, rng=None):
    w = x.n_qubits if n is None else n
    want = P.matrix_of(x, w)
    scale = max(sum(abs(c) for c, _ in P.terms_of(x)), 1e-300)
    before = repr(x)
    info = dict(operator=before, type=type(x).__name__, n_qubits=n)

    def close(m, how):
        t.check(m.shape == want.shape, "the matrix has a wrong shape", how=how, got=m.shape, expected=want.shape, **info)
        dev = np.abs(m - want)
        if not float(np.max(dev)) <= 1e-12 * scale:
            i = np.unravel_index(int(np.argmax(dev)), dev.shape)
            t.fail("the matrix differs from the Kronecker products", how=how, entry=i, got=complex(m[i]), expected=complex(want[i]), **info)

    args = () if n is None else (n,)
    m = x.to_matrix(*args)
    t.check(isinstance(m, np.ndarray) and not isinstance(m, np.matrix), "the dense matrix is no array", got=type(m).__name__, **info)
    close(m, "dense")
    t.ev("dense")
    for f in formats or FORMATS:
        kw = {"n_qubits": n, "sparse": f} if n is not None and rng is not None and rng.random() < .5 else None
        m = x.to_matrix(**kw) if kw else x.to_matrix(*args, sparse=f)
        t.check(sp.issparse(m) and m.format == f, "the matrix is not of the requested format", format=f, got=type(m).__name__ + ":" + str(getattr(m, "format", None)), **info)
        close(m.toarray(), f)
        if f in ("csc", "csr", "bsr"):
            m.check_format(full_check=True)
        if rng is not None and rng.random() < .3:      # usable, not only convertible
            v = np.array([complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(want.shape[0])])
            t.check(float(np.max(np.abs(m @ v - want @ v))) <= 1e-9 * max(scale, 1e-300) * np.linalg.norm(v), "product of the sparse matrix with a vector is wrong", format=f, **info)
        t.ev(f)
    t.check(repr(x) == before, "to_matrix changed the operator", before=before, after=repr(x))
    if n is not None and n > x.n_qubits:
        t.ev("padded")
    c = P.canonical(x)
    if not c:
        t.ev("zero")
    elif set(c) == {()}:
        t.ev("constant")
    t.ev("expr" if isinstance(x, Expr) else "term" if isinstance(x, Term) else "pauli")
    t.key(repr(x), n)


def case(t, kind):
    rng = t.rng
    if kind == "string":
        import itertools
        strings = [s for n in (1, 2, 3) for s in itertools.product("IXYZ", repeat=n)] + [tuple(rng.choice("IXYZ") for _ in range(5))]
        s = strings[t.idx % len(strings)]
        ops = [(c, q) for q, c in enumerate(s) if c != "I"]
        rng.shuffle(ops)
        x = Term(tuple(P.CTOR[c][q] for c, q in ops), P.gen_coeff(rng, True))
        judge(t, x)
        judge(t, x, len(s) + rng.randint(0, 1), rng=rng)
        judge(t, x.to_expr(), len(s))
        t.ev("all_strings")
        t.sample = repr(x)
        return
    if kind == "edge":
        xs = [I, X[0], Y[2], Z[1], Term((), 1.0), Term((), -2.5), Term((), 0.0), Term((), 1j), Term((X[0], X[0]), 1.5), Term((X[1],), 0.0), Expr.zero(), Expr.from_number(1.5), Expr((Term((), 1.0), Term((), -1.0))),
              Expr((Term((X[0],), 1.0), Term((X[0],), -1.0))), X[0] - X[0] + Z[2] - Z[2], Expr((Term((X[2], Y[2], Z[2]), 1.0),)), Term((X[2], Y[2], Z[2]), 1.0), Expr((Term((Z[1], Z[1]), 1.0), Term((X[0],), 0.0))),
              Y[0] + Y[1] + X[0], X[0] * Y[1] + Y[0] * X[1] + 1j * (X[0] * X[1]) + Y[0] * Y[1], Expr((Term((), 2), Term((), 1j))), np.float64(2) * X[0], 3 * Z[0]]
        x = xs[t.idx % len(xs)]
        judge(t, x, rng=rng)
        for n in range(x.n_qubits, x.n_qubits + 3):
            judge(t, x, n, rng=rng)
        for bad in ("CSR", "foo", "", "dense", "csr_matrix", "cs"):
            try:
                m = x.to_matrix(sparse=bad) if rng.random() < .5 else x.to_matrix(max(2, x.n_qubits), sparse=bad)
            except ValueError:
                t.ev("unknown_format")
            else:
                t.fail("an unknown format did not raise ValueError", operator=repr(x), format=bad, got=type(m).__name__)
        t.sample = repr(x)
        return
    if kind == "huge":
        return huge(t, rng)
    if kind == "wide":
        n = rng.randint(6, 7 if rng.random() < .7 else 8)
        style = rng.random()
        ts = []
        for _ in range(rng.randint(1, rng.choice([12, 12, 60]) if n < 8 else 12)):
            if style < .4:    # one X/Y pattern, Z elsewhere
                t_ops = [(rng.choice("XY") if q % 2 == t.idx % 2 else rng.choice("IZ"), q) for q in range(n)]
            else:
                t_ops = [(rng.choice("IIXYZ" if style < .7 else "YYYX"), q) for q in range(n)]
            t_ops = [o for o in t_ops if o[0] != "I"]
            rng.shuffle(t_ops)
            ts.append(Term(tuple(P.CTOR[c][q] for c, q in t_ops), P.gen_coeff(rng, True)))
        judge(t, Expr(tuple(ts)), None, rng.sample(FORMATS, 3))
        judge(t, ts[0], n, rng.sample(FORMATS, 3))
        t.sample = f"{len(ts)} terms on {n} qubits"
        return
    n = rng.choice([1, 2, 3, 3, 4, 5])
    r = rng.random()
    x = P.gen_pauli(rng, n) if r < .1 else P.gen_term(rng, n, rng.randint(0, 6)) if r < .4 else P.gen_expr(rng, n, rng.randint(0, 12))
    t.sample = repr(x)
    if rng.random() < .5:
        judge(t, x, rng=rng)
    else:
        judge(t, x, x.n_qubits + rng.choice([0, 0, 1, 2]), rng=rng)


def huge(t, rng):
    """Registers whose indices and sizes need wide integers; judged by a vector and by columns."""
    n = [12, 14, 15, 16, 17, 13, 16, 18][t.idx % 8]
    ts = []
    for _ in range(rng.randint(1, 4)):
        qs = rng.sample(range(n), rng.randint(1, 4)) + ([n - 1] if rng.random() < .5 else [])
        ts.append(Term(tuple(P.CTOR[rng.choice("XYZ")][q] for q in dict.fromkeys(qs)), P.gen_coeff(rng, True)))
    x = Expr(tuple(ts)) if t.idx % 3 else ts[0]
    dim = 2 ** n
    f = rng.choice(["csc", "csr", "coo", "csr", "csc", "bsr"])
    m = x.to_matrix(n, sparse=f)
    t.check(sp.issparse(m) and m.format == f and m.shape == (dim, dim), "the matrix has a wrong format or shape", operator=repr(x), format=f, got=repr(m))
    i = np.arange(dim, dtype=np.int64)
    cols = sorted({0, dim - 1, dim // 2, *(rng.randrange(dim) for _ in range(20))})
    g = np.random.RandomState(rng.randrange(2 ** 31))
    v = g.standard_normal(dim) + 1j * g.standard_normal(dim)
    want, entries = np.zeros(dim, complex), [dict() for _ in cols]
    for c, ops in P.terms_of(x):
        flip, w = i.copy(), v * c
        for ch, q in reversed(ops):          # the rightmost factor acts first
            bit = (flip >> q) & 1
            if ch in "YZ":
                w = w * np.where(bit, -1, 1)
            if ch == "Y":
                w = w * 1j
            if ch in "XY":
                flip = flip ^ (1 << q)
        want[flip] += w
        for k, col in enumerate(cols):
            r = int(flip[col])
            entries[k][r] = entries[k].get(r, 0) + complex(w[col] / v[col])
    scale = max(sum(abs(c) for c, _ in P.terms_of(x)), 1e-300)
    t.check(float(np.max(np.abs(m @ v - want))) <= 1e-11 * scale * np.max(np.abs(v)), "the product with a vector is wrong", operator=repr(x), n_qubits=n, format=f)
    s = m.tocsc()
    for col, e in zip(cols, entries):
        got = {int(r): complex(y) for r, y in zip(s.indices[s.indptr[col]:s.indptr[col + 1]], s.data[s.indptr[col]:s.indptr[col + 1]])}
        t.check(all(abs(got.get(r, 0) - e.get(r, 0)) <= 1e-11 * scale for r in set(got) | set(e)), "a column of the matrix is wrong", operator=repr(x), n_qubits=n, format=f, column=col, got=got, expected=e)
    t.ev("huge")
    t.key("huge", n, f, repr(x))
    t.sample = f"{x} on {n} qubits as {f}"
