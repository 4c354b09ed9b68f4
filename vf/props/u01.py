"""U01: to_inttuple converts faithfully and refuses what is not a bit string; ignore_global_phase only rotates the whole vector."""
import collections

import numpy as np
from blueqat import Circuit
from blueqat.utils import ignore_global_phase, to_inttuple

from .. import gen, ref

RULE = ("random bit strings (length 0-40), Counters and dicts of them with values of any kind, results of real shot runs; every kind of unsuitable argument; random vectors with leading "
        "zeros, tiny leading entries, float/complex dtypes, views, all-zero vectors, state vectors of random programs; distinct = input")
REQUIRED = ["string", "counter", "dict", "shots_result", "rejected", "argument_untouched", "rotated", "in_place", "zero_vector", "tiny_leading", "view", "physics_unchanged"]


def plan(tier):
    k = 5 if tier == "quick" else 20
    return [("bits", 1500 * k), ("bad", 300 * k), ("phase", 1500 * k), ("runs", 150 * k)]


def word(rng, n=None):
    n = rng.choice([0, 1, 2, 3, 8, 40, 100, 100, 700]) if n is None else n
    return "".join(rng.choice("01") for _ in range(n))


def ints_ok(tup, w):
    return type(tup) is tuple and len(tup) == len(w) and all(isinstance(b, int) and not isinstance(b, bool) and b == int(ch) for b, ch in zip(tup, w))


class Sub(str):
    pass


def case(t, kind):
    rng = t.rng
    if kind == "bits":
        form = rng.choice(["str", "Counter", "dict", "odict"])
        if form == "str":
            w = word(rng)
            if rng.random() < .1:
                w = Sub(w)
            t.sample = repr(w)
            got = to_inttuple(w)
            t.check(ints_ok(got, w), "a bit string was converted wrongly", arg=w, got=got)
            t.ev("string")
            t.key(w)
            return
        n = rng.choice([None, 3, 6, 12])
        words = list(dict.fromkeys(word(rng, n) for _ in range(rng.randint(0, 10) if rng.random() < .99 else 3000)))
        if form == "Counter":
            src = collections.Counter()
            for w in words:
                src[w] = rng.choice([0, 1, 2, 17, -3, 10 ** 12])
        else:
            src = (dict if form == "dict" else collections.OrderedDict)()
            for w in words:
                src[w] = rng.choice([0, 1, .25, None, "x", [1, 2], (3,), np.float64(.5)])
        before = list(src.items())
        got = to_inttuple(src)
        t.sample = repr(src)[:300]
        t.check(type(got) is collections.Counter if form == "Counter" else isinstance(got, dict) and not isinstance(got, collections.Counter),
                "the converted mapping has another type", arg=src, got=repr(type(got)))
        t.check(len(got) == len(words) and all(ints_ok(k, "".join(map(str, k))) for k in got), "keys were lost or are not tuples of ints", arg=src, got=got)
        for w, v in before:
            k = tuple(map(int, w))
            t.check(k in got and got[k] is v or got[k] == v, "an entry lost or changed its value", arg=src, key=w, got=got)
        t.check(list(src.items()) == before, "the argument was changed", arg=src)
        if len({len(w) for w in words}) == 1 and len(words) > 1:
            t.check(list(got) == [tuple(map(int, w)) for w, _ in before], "the order of the entries changed", arg=src, got=got)
        t.ev("argument_untouched")
        t.ev("counter" if form == "Counter" else "dict")
        t.key(form, tuple(words))
    elif kind == "bad":
        w = word(rng, rng.randint(0, 6) if rng.random() < .8 else rng.randint(30, 140))
        i = rng.randint(0, len(w))
        v = rng.choice([None, 5, 1.5, list(w), tuple(w), set(w), w.encode(), bytearray(b"01"), np.array([0, 1]), range(3), True, iter(w), object(),
                        w[:i] + rng.choice("ab-+._x/ \n2379\u0663\u00bd") + w[i:], {w[:i] + rng.choice("q27") + w[i:]: 1, w: 2}, collections.Counter({w[:i] + rng.choice("-35") + w[i:]: 1})])
        if rng.random() < .5:
            i = rng.choice([0, len(w), i])
            s = w[:i] + rng.choice("_ +-\n\t_ 2ab") + w[i:]
            v = rng.choice([s, s, {s: 1}, collections.Counter({s: 2, w: 1})])
        t.sample = repr(v)
        try:
            got = to_inttuple(v)
        except ValueError:
            t.ev("rejected")
        else:
            t.fail("an unsuitable argument was not refused with ValueError", arg=repr(v), got=got)
        t.key(repr(v) if isinstance(v, (str, dict)) else type(v).__name__)
    elif kind == "phase":
        n = rng.randint(0, 5) if rng.random() < .97 else rng.choice([10, 13])
        nprng = np.random.default_rng(rng.getrandbits(32))
        v = nprng.normal(size=2 ** n) + 1j * nprng.normal(size=2 ** n)
        if rng.random() < .25:
            v = v.real.copy()
        lead = rng.randint(0, len(v)) if rng.random() < .6 else 0
        v[:lead] = 0
        small = 0
        if lead and rng.random() < .5:
            small = rng.randint(1, lead)
            for i in range(small):
                v[i] = rng.choice([1e-8, -1e-9, 3e-12, 1e-8 + (1e-9j if v.dtype == complex else 0), -5e-324])
        if lead < len(v) and rng.random() < .2:
            v[lead] = rng.choice([1e-6, -1e-5, 1e-4, (1e-6j if v.dtype == complex else -1e-6)])
        if rng.random() < .15 and v.dtype == complex:
            v = v.astype(np.complex64)
        arr = v
        if rng.random() < .3:
            base = np.zeros(2 * len(v), dtype=v.dtype)
            base[::2] = v
            arr = base[::2]
            t.ev("view")
        orig = v.copy()
        t.sample = repr(orig)[:300]
        got = ignore_global_phase(arr)
        t.check(got is arr, "the given array is not what is returned", vec=orig)
        t.ev("in_place")
        tol = 1e-5 if v.dtype == np.complex64 else 1e-12
        big = np.nonzero(np.abs(orig) > 1e-7)[0]
        if len(big) == 0:
            t.check(np.array_equal(got, orig), "a vector without a notable entry was changed", vec=orig, got=got)
            t.ev("zero_vector")
        else:
            k = big[0]
            want = orig * (abs(orig[k]) / orig[k])
            t.check(np.allclose(got, want, rtol=tol, atol=0) or np.allclose(got, want, rtol=0, atol=tol * max(1, np.abs(orig).max())) and np.allclose(np.abs(got), np.abs(orig), rtol=10 * tol, atol=1e-300),
                    "the vector is not the original times one phase that makes the first notable entry positive", vec=orig, got=got, expected=want)
            t.check(abs(np.imag(got[k])) <= tol * max(1e-12, abs(orig[k])) * 10 and np.real(got[k]) > 0, "the first notable entry is not real positive", vec=orig, got=got)
            t.ev("rotated")
            if small:
                t.ev("tiny_leading")
        again = got.copy()
        t.check(np.allclose(ignore_global_phase(got), again, rtol=1e-5 if tol > 1e-6 else 1e-12, atol=0), "a second application changed the vector", vec=orig, got=got, first=again)
        t.key(n, lead, small, str(v.dtype), round(float(np.real(orig[-1])), 6))
    else:
        n0, ops, n = gen.program(rng, nmax=4, maxops=8)
        c = gen.build(Circuit, n0, ops, rng)
        t.sample = gen.show(n0, ops)
        if n:
            v = np.array(c.run(), dtype=complex)
            w = ignore_global_phase(v.copy())
            t.check(ref.same_up_to_phase(w, ref.run(ops, n)), "the normalised state vector is another state", circuit=t.sample, got=w)
            # two vectors equal up to a phase must agree once normalised
            z = ignore_global_phase(v * np.exp(1j * rng.uniform(-3, 3)))
            t.check(ref.same(z, w, 1e-7), "two vectors that differ by a phase are not normalised to the same one", circuit=t.sample, got=z, expected=w)
            t.ev("physics_unchanged")
        if n:
            c.m[:]
            r = c.run(shots=rng.randint(1, 60))
            before = dict(r)
            got = to_inttuple(r)
            t.check(type(got) is collections.Counter and len(got) == len(before) and sum(got.values()) == sum(before.values()), "counts were lost", got=got, expected=before)
            for k, cnt in before.items():
                t.check(got[tuple(int(k[q]) for q in range(n))] == cnt, "qubit i's outcome is not at position i", got=got, expected=before)
            t.check(dict(r) == before, "the result was changed", got=r)
            t.ev("shots_result")
        t.key(n, gen.structure(ops))
