"""Interrupts at the points where the interpreter may deliver one.

CPython looks for pending signals when a function starts or resumes, when a call returns and when a loop jumps back.
Returns of the interpreter's own small functions (len, list.append, ...) are left out.
`points` counts these points of blueqat's code in a call; `inject` makes the call end with an interrupt at one of them.
"""
import dis
import sys

from . import core

_mon = sys.monitoring
_E = _mon.events
_EVENTS = _E.PY_START | _E.PY_RESUME | _E.CALL | _E.JUMP
_TOOL = 4
_state = {"n": 0, "at": None, "where": None}
_own = set()
_QUICK = (list, dict, tuple, set, str, int, float, complex)
_tables = {}


class Stop(KeyboardInterrupt):
    pass


def _hit(code, what):
    s = _state
    s["n"] += 1
    if s["n"] == s["at"]:
        s["at"] = None
        s["where"] = f"{code.co_name}: {what}"
        raise Stop(s["where"])


def _start(code, offset):
    _hit(code, "function start")


def _resume(code, offset):
    _hit(code, "generator resumes")


def _c_return(code, offset, f, arg):
    # Not after len(), append() and the like: they take no time (and warmed-up code does not look for signals there).
    if getattr(f, "__module__", None) == "builtins" or type(getattr(f, "__self__", None)) in _QUICK or getattr(f, "__objclass__", None) in _QUICK:
        return
    _hit(code, f"after {getattr(f, '__name__', type(f).__name__)}")


def _handler(code, offset):
    for e in _tables.setdefault(code, dis._parse_exception_table(code)):
        if e.start <= offset < e.end:
            return e.target


def _jump(code, offset, to):
    # The interpreter looks after the jump was made; the callback raises before it. Only where both have the same handler.
    if to < offset and _handler(code, offset) == _handler(code, to) == _handler(code, to - 2):
        _hit(code, "loop")


def _call(code, offset, f, arg):
    c = getattr(getattr(f, "__func__", f), "__code__", None)
    if c is not None and c not in _own:       # a Python function elsewhere: its start is the point
        _hit(code, f"start of {getattr(f, '__name__', '?')}")


def install():
    try:
        _mon.use_tool_id(_TOOL, "vf-interrupt")
    except ValueError:
        pass
    for e, f in ((_E.PY_START, _start), (_E.PY_RESUME, _resume), (_E.C_RETURN, _c_return), (_E.JUMP, _jump), (_E.CALL, _call)):
        _mon.register_callback(_TOOL, e, f)


def _switch(events):
    for c in core.CODES:
        _mon.set_local_events(_TOOL, c, events)


def points(f):
    """(number of points in the call, its result)."""
    _own.update(core.CODES)
    _state.update(n=0, at=None, where=None)
    _switch(_EVENTS)
    try:
        r = f()
    finally:
        _switch(0)
    return _state["n"], r


def inject(f, k):
    """True if the call ended with the interrupt at its k-th point, False if it has fewer; None if it swallowed it."""
    _own.update(core.CODES)
    _state.update(n=0, at=k, where=None)
    _switch(_EVENTS)
    try:
        f()
    except Stop:
        return True
    finally:
        _switch(0)
    return None if _state["where"] else False


def where():
    return _state["where"]
