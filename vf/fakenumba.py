"""A stand-in numba module: kernels run as Python, parallel loops in any order, with a per-iteration race detector.

Arrays enter a kernel behind proxies that record, while a parallel loop is active, which iteration reads and writes
which element; an element written by one iteration and touched by another one is a data race whatever the order.
Unsigned 64-bit masks are kept as Python integers modulo 2**64, as compiled code does.
"""
import random
import sys
import types
from collections import Counter

import numpy as np

STATS = Counter()
RACES = []
RNG = random.Random(0)
ORDER = "shuffle"


class Ty:
    def __init__(self, name, bits=None, signed=False):
        self.name, self.bits, self.signed = name, bits, signed

    def cast(self, v):
        if self.bits is None or not hasattr(v, "__index__"):
            return v
        v = v.__index__() & ((1 << self.bits) - 1)
        if self.signed and v >> (self.bits - 1):
            v -= 1 << self.bits
        return v

    def __call__(self, *args):
        if any(isinstance(a, Ty) for a in args) or len(args) != 1:
            return Sig(self, args)
        if self.bits is not None:
            return self.cast(int(args[0]))
        return args[0]

    def __getitem__(self, item):
        return Ty(self.name + "[]")


class Sig:
    def __init__(self, ret, args):
        self.ret, self.args = ret, args


class Loop:
    """A running parallel loop: accesses per array element."""

    def __init__(self):
        self.it = None
        self.acc = {}      # (array id, index) -> [first reader, several readers?, first writer, several writers?]

    def note(self, arr, idx, write):
        a = self.acc.setdefault((arr, idx), [None, False, None, False])
        k = 2 if write else 0
        if a[k] is None:
            a[k] = self.it
        elif a[k] != self.it:
            a[k + 1] = True

    def finish(self, name):
        STATS["parallel_loops"] += 1
        STATS["elements_watched"] += len(self.acc)
        for (_, idx), (r, rr, w, ww) in self.acc.items():
            if w is None:
                continue
            if ww or rr or (r is not None and r != w):
                RACES.append(f"{name}: element {idx} is written by one iteration and accessed by another")
                return


LOOP = None
KERNELS = []           # stack of (name, parallel)


class Arr:
    """Proxy of an ndarray inside kernels; views remember which elements of the whole array they show."""

    def __init__(self, a, root=None, flat=None):
        self.__dict__.update(a=a, root=a if root is None else root, flat=flat)

    def _flat(self):
        """For every element its number in the whole array."""
        if self.flat is None:
            self.__dict__["flat"] = np.arange(self.a.size).reshape(self.a.shape)
        return self.flat

    def _check(self, k):
        n = len(self.a)
        if hasattr(k, "__index__") and not -n <= k.__index__() < n:
            raise IndexError(f"index {k.__index__()} out of range for {n} elements (compiled code would not check)")

    def _note(self, k, write):
        self._check(k)
        if LOOP is not None:
            if type(k) is int and self.flat is None and self.a.ndim == 1:
                STATS["element_accesses"] += 1
                LOOP.note(id(self.root), k % len(self.a), write)
                return
            idx = np.ravel(self._flat()[unwrap(k)]).tolist()
            STATS["element_accesses"] += len(idx)
            for i in idx:
                LOOP.note(id(self.root), i, write)

    def _view(self, v, make):
        """v, made from the array by make: behind a proxy of its own if it shows the same memory."""
        if isinstance(v, np.ndarray):
            if np.shares_memory(v, self.a):
                return Arr(v, self.root, make(self._flat()))
            return Arr(v)
        return out_of(v)

    def __getitem__(self, k):
        u = unwrap(k)
        v = self.a[u]
        if isinstance(v, np.ndarray) and np.shares_memory(v, self.a):
            return self._view(v, lambda f: f[u])    # a view: its elements are noted when they are used
        self._note(k, False)
        return wrap(v)

    def __setitem__(self, k, v):
        self._note(k, True)
        k, v = unwrap(k), unwrap(v)
        if self.a.dtype.kind == "u" and not isinstance(v, np.ndarray):
            v = int(v) & ((1 << (8 * self.a.dtype.itemsize)) - 1)
            v = self.a.dtype.type(v)
        self.a[k] = v

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        for i in range(len(self.a)):
            yield self[i]

    def sort(self):
        self._note(Ellipsis, True)
        self.a.sort()

    def copy(self):
        self._note(Ellipsis, False)
        return Arr(self.a.copy())

    def fill(self, v):
        self._note(Ellipsis, True)
        self.a.fill(v)

    def reshape(self, *shape):
        return self._view(self.a.reshape(*shape), lambda f: f.reshape(*shape))

    def ravel(self):
        return self._view(self.a.ravel(), lambda f: f.ravel())

    def transpose(self, *axes):
        return self._view(self.a.transpose(*axes), lambda f: f.transpose(*axes))

    @property
    def T(self):
        return self.transpose()

    def _inplace(op):
        def f(self, o):
            self._note(Ellipsis, True)
            getattr(self.a, op)(unwrap(o))
            return self
        return f
    __imul__, __iadd__, __isub__, __itruediv__ = map(_inplace, ["__imul__", "__iadd__", "__isub__", "__itruediv__"])

    def __array__(self, dtype=None, copy=None):
        self._note(Ellipsis, False)
        return self.a if dtype is None else self.a.astype(dtype)

    def __getattr__(self, name):
        if name in ("shape", "dtype", "size", "ndim", "itemsize", "nbytes"):
            return getattr(self.a, name)
        self._note(Ellipsis, False)
        return getattr(self.a, name)

    def _binary(op):
        def f(self, o=None):
            self._note(Ellipsis, False)
            if isinstance(o, Arr):
                o._note(Ellipsis, False)
            return wrap(getattr(self.a, op)(unwrap(o)) if o is not None else getattr(self.a, op)())
        return f
    __mul__, __rmul__, __add__, __radd__, __sub__, __rsub__, __truediv__, __pow__, __matmul__, __rmatmul__, __neg__ = map(
        _binary, ["__mul__", "__rmul__", "__add__", "__radd__", "__sub__", "__rsub__", "__truediv__", "__pow__",
                  "__matmul__", "__rmatmul__", "__neg__"])


def unwrap(x):
    if isinstance(x, Arr):
        return x.a
    if isinstance(x, tuple):
        return tuple(unwrap(y) for y in x)
    return x


def out_of(v):
    return int(v) if isinstance(v, np.integer) else v


def wrap(x):
    if isinstance(x, np.ndarray):
        return Arr(x)
    return out_of(x)


class _NP:
    """numpy as kernels see it: new arrays are proxies, integer scalars Python integers."""

    def __getattr__(self, name):
        f = getattr(np, name)
        if isinstance(f, type) or not callable(f):
            return f

        def g(*args, **kw):
            for a in args:
                if isinstance(a, Arr):
                    a._note(Ellipsis, False)
            if isinstance(kw.get("out"), Arr):
                kw["out"]._note(Ellipsis, True)
            r = f(*[unwrap(a) for a in args], **{k: unwrap(v) for k, v in kw.items()})
            return wrap(r)
        return g


class _Globals(dict):
    def __init__(self, base):
        super().__init__()
        self.base = base

    def __getitem__(self, k):
        v = self.base[k]
        return NPX if v is np else v

    def __contains__(self, k):
        return k in self.base


NPX = _NP()


def njit(*dargs, **dkw):
    if len(dargs) == 1 and isinstance(dargs[0], types.FunctionType) and not dkw:
        return _make(dargs[0], None, False)
    sig = dargs[0] if dargs and isinstance(dargs[0], Sig) else None
    return lambda f: _make(f, sig, bool(dkw.get("parallel")))


def _make(f, sig, parallel):
    g = types.FunctionType(f.__code__, _Globals(f.__globals__), f.__name__, f.__defaults__, f.__closure__)
    g.__kwdefaults__ = f.__kwdefaults__

    def kernel(*args, **kw):
        args = [wrap(a) for a in args]
        if sig is not None:
            args = [s.cast(a) if isinstance(s, Ty) else a for s, a in zip(sig.args, args)] + args[len(sig.args):]
        top = not KERNELS
        KERNELS.append((f.__name__, parallel))
        STATS["kernel_calls"] += 1
        STATS["kernel " + f.__name__] += 1
        try:
            r = g(*args, **{k: wrap(v) for k, v in kw.items()})
        finally:
            KERNELS.pop()
        if sig is not None and isinstance(sig.ret, Ty):
            r = sig.ret.cast(r) if not isinstance(r, Arr) else r
        return unwrap(r) if top else r
    kernel.__name__ = f.__name__
    kernel.__wrapped__ = f
    kernel.py_func = f
    return kernel


def prange(*args):
    global LOOP
    r = range(*[int(a) for a in args])
    if LOOP is not None or not KERNELS or not KERNELS[-1][1]:
        yield from r                    # sequential: not compiled as parallel, or nested in a parallel loop
        return
    order = list(r)
    if ORDER == "shuffle":
        RNG.shuffle(order)
    elif ORDER == "reverse":
        order.reverse()
    loop = LOOP = Loop()
    name = KERNELS[-1][0]
    try:
        for i in order:
            loop.it = i
            yield i
        loop.finish(name)
    finally:
        LOOP = None
    STATS["iterations"] += len(order)


def install():
    m = types.ModuleType("numba")
    for n, b in [("uint8", 8), ("uint16", 16), ("uint32", 32), ("uint64", 64)]:
        setattr(m, n, Ty(n, b))
    for n, b in [("int8", 8), ("int16", 16), ("int32", 32), ("int64", 64), ("intp", 64)]:
        setattr(m, n, Ty(n, b, True))
    for n in ["float32", "float64", "complex64", "complex128", "void", "boolean"]:
        setattr(m, n, Ty(n))
    m.jit = m.njit = njit
    m.prange = prange
    m.vectorize = lambda *a, **k: np.vectorize(a[0]) if a and isinstance(a[0], types.FunctionType) else np.vectorize
    m.literal_unroll = lambda x: x
    m.get_num_threads = lambda: 4
    m.set_num_threads = lambda n: None
    m.get_thread_id = lambda: 0
    m.config = types.SimpleNamespace(NUMBA_NUM_THREADS=4, NUMBA_DEFAULT_NUM_THREADS=4, THREADING_LAYER="default")
    for n, v in [("b1", "boolean"), ("i4", "int32"), ("i8", "int64"), ("u4", "uint32"), ("u8", "uint64"), ("c8", "complex64"),
                 ("c16", "complex128"), ("f4", "float32"), ("f8", "float64")]:
        setattr(m, n, getattr(m, v))
    m.types = types.ModuleType("numba.types")
    m.core = types.ModuleType("numba.core")
    m.core.types = m.types
    for n, v in list(vars(m).items()):
        if isinstance(v, Ty):
            setattr(m.types, n, v)
    sys.modules["numba.types"] = sys.modules["numba.core.types"] = m.types
    sys.modules["numba.core"] = m.core
    m.__vf_standin__ = True
    sys.modules["numba"] = m
    return m
