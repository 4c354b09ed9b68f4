"""Meters of what a process still holds (U05): blocks of the allocator, instances of Blueqat's classes, elements reachable from Blueqat's modules."""
import gc
import os
import sys
import threading
import types
import warnings

import numpy as np

STOP = (types.ModuleType, types.FrameType, types.TracebackType)


def ours(o):
    name = getattr(o, "__module__", None)
    return isinstance(name, str) and (name == "blueqat" or name.startswith("blueqat."))


def reachable(*held):
    """Elements of containers reachable from Blueqat's modules, functions, classes and the held objects; arrays count their elements."""
    seen, total = set(), 0
    todo = [vars(m) for k, m in list(sys.modules.items()) if (k == "blueqat" or k.startswith("blueqat.")) and m is not None] + list(held)
    keep = []
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, STOP):
            continue
        seen.add(id(o))
        if isinstance(o, (type, types.FunctionType, types.BuiltinFunctionType)) and not ours(o):
            continue
        t = type(o)
        if isinstance(o, np.ndarray):
            total += o.size
            if o.dtype != object:
                continue
        elif isinstance(o, (list, dict, set, frozenset, tuple, bytearray, str, bytes)):
            total += len(o)
        elif t.__module__.split(".")[0] in ("numpy", "scipy", "sympy", "numba", "matplotlib", "llvmlite", "threading", "logging"):
            if hasattr(o, "__len__") and t.__module__.startswith("scipy"):
                pass
            if t.__module__.split(".")[0] != "scipy":
                continue
        if isinstance(o, types.FunctionType):
            todo += [x for x in (o.__closure__, o.__defaults__, o.__kwdefaults__, o.__dict__) if x]
            keep.append(todo[-1] if todo else None)
            continue
        more = gc.get_referents(o)
        keep.append(more)
        todo += more
    return total


def instances():
    """Instances of classes defined in Blueqat's source that the collector tracks."""
    return sum(1 for o in gc.get_objects() if ours(type(o)))


def warned():
    """Entries of the registries by which the interpreter remembers warnings already shown (its own, bounded by text)."""
    return sum(len(getattr(m, "__warningregistry__", ())) for m in list(sys.modules.values()) if m is not None)


def clear_foreign():
    """Empties caches of other packages that fill up with use."""
    try:
        from sympy.core.cache import clear_cache
        clear_cache()
    except ImportError:
        pass
    import linecache
    import re
    linecache.clearcache()
    re.purge()


def read(*held):
    clear_foreign()
    gc.collect()
    gc.collect()
    out = dict(instances=instances(), elements=reachable(*held), threads=threading.active_count(), files=len(os.listdir("/proc/self/fd")))
    gc.collect()
    out["blocks"] = sys.getallocatedblocks()
    return out
