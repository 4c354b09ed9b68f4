"""A06: Pauli objects are values: parsing, hashing, pickling, copying, properties, immutability."""
import copy
import itertools
import pickle

import numpy as np
from blueqat.pauli import Expr, I, Term, X, Y, Z, pauli_from_char, qubo_bit, term_from_chars, to_expr, to_term

from .. import paulis as P

RULE = ("random operators, terms and expressions (unsimplified included): pickled with every protocol, copied, deep-copied, attributes assigned; strings over I, X, Y, Z up to 12 letters (all of up to 4) parsed in both orders, strings "
        "with other letters rejected; n_qubits, max_n, coefficients, iteration and conversion compared with the terms themselves; distinct = object or string")
REQUIRED = ["large_objects", "long_strings", "zero_terms", "pickled", "copied", "hashes", "sets", "properties", "parsed", "parsed_all", "invalid", "immutable", "conversions", "matrix_copy", "empty_string", "qubo_bit", "made", "made_identity", "identity_expr", "not_identity_expr"]
ASSUMES = []
ALL = [s for n in range(5) for s in itertools.product("IXYZ", repeat=n)]


def plan(tier):
    k = 4 if tier == "quick" else 30
    return [("value", 500 * k), ("string", len(ALL) // 11), ("long", 200 * k), ("invalid", 120 * k), ("paulis", 60 * k), ("made", 120 * k)]


def exact(a, b):
    return type(a) is type(b) and repr(a) == repr(b) and P.terms_of(a) == P.terms_of(b)


def values(t, x):
    rng = t.rng
    before = repr(x)
    for proto in range(pickle.HIGHEST_PROTOCOL + 1):
        y = pickle.loads(pickle.dumps(x, proto))
        t.check(exact(x, y) and x == y and not (x != y), "a pickled object differs", original=before, got=repr(y), protocol=proto, types=(type(x).__name__, type(y).__name__))
        t.ev("pickled")
    for y in (copy.copy(x), copy.deepcopy(x), copy.deepcopy([x])[0]):
        t.check(exact(x, y) and x == y, "a copy differs", original=before, got=repr(y))
        t.ev("copied")
    t.check(repr(x) == before, "copying changed the object", before=before, after=repr(x))
    ts = P.terms_of(x)
    top = max([q for _, o in ts for _, q in o], default=-1)
    t.check(x.n_qubits == top + 1, "n_qubits is not the largest qubit plus one", obj=before, got=x.n_qubits, expected=top + 1)
    if isinstance(x, (Term, Expr)):
        t.check(x.max_n() == top, "max_n() is not the largest qubit", obj=before, got=x.max_n(), expected=top)
        try:
            if isinstance(x, Term):
                x.coeff = 5
            else:
                x.terms = ()
        except (AttributeError, TypeError):
            pass
        t.check(repr(x) == before, "a field was assigned", before=before, after=repr(x))
        t.ev("immutable")
    elif x.op != "I":
        try:
            x.n = 9
        except (AttributeError, TypeError):
            pass
        t.check(repr(x) == before, "a field was assigned", before=before, after=repr(x))
    if isinstance(x, Term):
        t.check(list(x.n_iter()) == [q for _, q in ts[0][1]], "n_iter() does not give the qubits of the term's operators", obj=before, got=list(x.n_iter()))
        t.check(x.is_identity == (len(x.ops) == 0), "is_identity of a term is wrong", obj=before, got=x.is_identity)
        t.check(x.to_term() == x and exact(x.to_term(), x), "to_term() of a term differs", obj=before)
    elif isinstance(x, Expr):
        t.check(list(x.coeffs()) == [m.coeff for m in x.terms] and list(x) == list(x.terms) and len(list(x)) == len(ts), "coeffs() or iteration does not give the terms", obj=before, got=list(x.coeffs()))
        t.check([complex(c) for c in x.coeffs()] == [c for c, _ in ts], "coeffs() differs from the terms", obj=before)
        t.check(exact(x.to_expr(), x), "to_expr() of an expression differs", obj=before)
    else:
        t.check(x.is_identity == (x.op == "I"), "is_identity of an operator is wrong", obj=before)
        t.check(exact(to_term(x), x.to_term()) and P.terms_of(x.to_term()) == ts, "to_term() differs", obj=before, got=repr(x.to_term()))
    e = to_expr(x)
    t.check(isinstance(e, Expr) and P.canonical(e) == P.canonical(x) and e == x, "to_expr() denotes another operator", obj=before, got=repr(e))
    t.ev("conversions")
    t.ev("properties")
    # equal objects have equal hashes, whatever can be hashed
    for y in (pickle.loads(pickle.dumps(x)), copy.deepcopy(x)):
        try:
            h = hash(x)
        except TypeError:
            break
        t.check(h == hash(y) == hash(x), "equal objects have different hashes", obj=before)
        t.ev("hashes")


def want_term(s, order):
    n = len(s)
    return {tuple(sorted((q if order == "left" else n - 1 - q, c) for q, c in enumerate(s) if c != "I")): 1.0}


def parse(t, s, lower=False):
    u = "".join(s)
    for order, f in (("left", Term.from_chars), ("right", term_from_chars)):
        r = f(u if not lower else u.lower())
        t.check(isinstance(r, Term), "the parsed string is no term", string=u, got=repr(r), order=order)
        t.check(P.canonical(r) == want_term(s, order) and len(r.ops) == sum(c != "I" for c in s) and r.coeff == 1, "the parsed term is another one", string=u, got=repr(r), expected=want_term(s, order), order=order)
        t.ev("parsed")
        if not u:
            t.ev("empty_string")


def made(t, rng):
    """The documented ways of making terms and expressions."""
    a, b, c = P.gen_pauli(rng, 3, .25), P.gen_pauli(rng, 3, .25), P.gen_coeff(rng)
    x = P.gen_term(rng, 4)
    num = rng.choice([c, c, 0, 0.0, 0j, np.float64(0), 1, -2, 1.0, 1 + 0j])
    forms = [("Term.from_pauli", Term.from_pauli(a), Term, P.canonical(a)),
             ("Term.from_pauli", Term.from_pauli(a, c), Term, {k: v * complex(c) for k, v in P.canonical(a).items()}),
             ("Term.from_pauli", Term.from_pauli(a, 0), Term, {}),
             ("Term.from_paulipair", Term.from_paulipair(a, b), Term, P.canonical(Expr((Term((a, b), 1.0),)))),
             ("Expr.from_number", Expr.from_number(num), Expr, {(): complex(num)} if num else {}),
             ("Expr.from_term", Expr.from_term(x), Expr, P.canonical(x)),
             ("Expr.from_term", Expr.from_term(0 * x), Expr, {}),
             ("Expr.zero", Expr.zero(), Expr, {})]
    for name, r, cls, want in forms:
        t.check(type(r) is cls and P.canonical(r) == want, "a constructor makes another operator", constructor=name, a=repr(a), b=repr(b), coeff=c, number=num, term=repr(x), got=repr(r), expected=want)
        top = max([q for _, o in P.terms_of(r) for _, q in o], default=-1)
        t.check(r.n_qubits == top + 1 and isinstance(repr(r), str), "a constructor makes an object that cannot be used", constructor=name)
        m = max(top + 1, 1)
        t.check(np.allclose(r.to_matrix(m), P.matrix_of(r, m), atol=1e-12), "a constructor makes an operator with another matrix", constructor=name, got=repr(r))
        t.ev("made")
        if name == "Term.from_paulipair" and "I" in (a.op, b.op):
            t.ev("made_identity")
    e = rng.choice([Expr.from_number(num), to_expr(I), Expr.from_term(x), (X[0] * X[0] + 0 * Z[1]), P.gen_expr(rng, 3), 1.0 * I + Z[1] - Z[1]]).simplify() if rng.random() < .9 else 1 - (X[1] - X[1])
    e = e.simplify()
    if e.terms:
        want = P.canonical(e) == {(): 1.0}
        t.check(e.is_identity == want, "is_identity of a simplified expression is wrong", obj=repr(e), got=e.is_identity)
        t.ev("identity_expr" if want else "not_identity_expr")
    t.key("made", repr(a), repr(b), repr(c), repr(x))
    t.sample = f"{a!r}, {b!r}, {c!r}"


def case(t, kind):
    rng = t.rng
    if kind == "value":
        x = rng.choice([lambda: P.gen_pauli(rng, 6), lambda: P.gen_term(rng, 6, rng.randint(0, 6)), lambda: P.gen_expr(rng, 6, rng.randint(0, 6))])()
        if rng.random() < .06:       # many terms, many factors, many qubits
            x = rng.choice([lambda: P.big_expr(rng, 70, rng.randint(10, 60)), lambda: P.gen_term(rng, 200, rng.randint(20, 90)), lambda: P.gen_pauli(rng, 5000)])()
            t.ev("large_objects")
        elif rng.random() < .15:       # terms of coefficient zero, repeated terms
            ts = list(x.to_expr().terms)
            for _ in range(rng.randint(1, 3)):
                ts.insert(rng.randint(0, len(ts)), rng.choice([P.gen_term(rng, 7), P.gen_term(rng, 7) * 0, Term((X[5],), 0.0), Term((), 0)] + ts[:1]))
            x = Expr(tuple(ts)) if rng.random() < .9 else ts[0]
            t.ev("zero_terms")
        values(t, x)
        t.key("value", repr(x))
        t.sample = repr(x)
    elif kind == "made":
        made(t, rng)
    elif kind == "string":
        for s in ALL[t.idx * 11:t.idx * 11 + 11]:
            parse(t, s)
            t.key("string", s)
        t.ev("parsed_all")
        t.sample = "".join(s)
    elif kind == "long":
        s = [rng.choice("IXYZ" if rng.random() < .8 else "IIIIX") for _ in range(rng.randint(4, 14) if rng.random() < .9 else rng.randint(15, 300))]
        if len(s) > 14:
            t.ev("long_strings")
        parse(t, s)
        t.key("long", tuple(s))
        t.sample = "".join(s)
        # a term read back from its letters
        r = Term.from_chars("".join(s))
        t.check(P.terms_of(r) == [(1.0, [(c, q) for q, c in enumerate(s) if c != "I"])], "from_chars has other operators", got=repr(r), string="".join(s))
    elif kind == "invalid":
        s = [rng.choice("IXYZ") for _ in range(rng.randint(0, 6))]
        bad = rng.choice(["A", "0", " ", "-", "W", "\n", "_", "Q", "É", "1", "+", "a", "m"])
        s.insert(rng.randint(0, len(s)), bad)
        u = "".join(s)
        for f in (Term.from_chars, term_from_chars):
            try:
                r = f(u)
            except ValueError:
                t.ev("invalid")
            else:
                t.fail("a string with an invalid letter was accepted", string=u, got=repr(r))
        try:
            r = pauli_from_char(bad, 1)
        except ValueError:
            t.ev("invalid")
        else:
            t.fail("an invalid letter was accepted", letter=bad, got=repr(r))
        t.key("invalid", u)
        t.sample = u
    else:
        objs = {}
        forms = []
        for c, ctor in (("X", X), ("Y", Y), ("Z", Z)):
            for q in [0, 1, 2, rng.randrange(3, 50)]:
                fs = [ctor[q], ctor(q), pauli_from_char(c, q), pauli_from_char(c.lower(), q), pickle.loads(pickle.dumps(ctor[q])), copy.copy(ctor(q)), ctor[np.int64(q)], ctor(np.uint8(q)), ctor[np.int32(q)]]
                if q < 2:
                    fs.append(ctor[bool(q)])
                forms.append(((c, q), fs))
        forms.append((("I", None), [I, I(), pauli_from_char("I"), pauli_from_char("I", 3), pickle.loads(pickle.dumps(I)), copy.deepcopy(I)]))
        flat = [(k, f) for k, fs in forms for f in fs]
        for k, a in flat:
            t.check(a.op == k[0] and (k[0] == "I" or a.n == k[1]), "an operator has another letter or qubit", expected=k, got=repr(a))
            objs.setdefault(a, k)
            for l, b in flat:
                t.check((a == b) == (k == l) and (a != b) == (k != l), "operators are compared wrongly", a=repr(a), b=repr(b))
                if k == l:
                    t.check(hash(a) == hash(b), "equal operators have different hashes", a=repr(a), b=repr(b))
                    t.ev("hashes")
        t.check(len(objs) == len(forms) and len({f for _, f in flat}) == len(forms), "a set of operators has a wrong size", got=len(objs), expected=len(forms))
        t.check(all(objs[f] == k for k, f in flat), "an operator is not found in a dictionary", got=repr(objs))
        t.ev("sets")
        for k, a in flat:
            m = a.matrix
            want = P.ref.pauli_matrix([(k[0], 0)], 1) if k[0] != "I" else np.eye(2)
            t.check(np.array_equal(m, want), "matrix of an operator is wrong", op=repr(a), got=m)
            m[:] = 7
            t.check(np.array_equal(a.matrix, want), "modifying a returned matrix changed the operator's", op=repr(a))
            full = a.to_matrix(max(a.n_qubits, 1)) if a.n_qubits < 6 else None
            if full is not None:
                full[:] = 5
                t.check(np.array_equal(a.to_matrix(max(a.n_qubits, 1)), P.matrix_of(a, max(a.n_qubits, 1))), "modifying a returned matrix changed a later one", op=repr(a))
            t.ev("matrix_copy")
        for c, ctor in (("X", X), ("Y", Y), ("Z", Z)):
            m = ctor.matrix
            m += 1
            t.check(np.array_equal(ctor.matrix, P.ref.pauli_matrix([(c, 0)], 1)), "modifying a returned matrix changed the operator's", op=c)
        n = rng.randrange(20)
        t.check(P.canonical(qubo_bit(n)) == {(): .5, ((n, "Z"),): -.5}, "qubo_bit is not (1 - Z)/2", got=repr(qubo_bit(n)))
        t.ev("qubo_bit")
        t.key("paulis", t.idx)
        t.sample = "all forms of operators on 4 qubits"
