"""Runs jobs in threads under a controlled scheduler: one thread at a time, switched at line boundaries of the code under test."""
import os
import random
import sys
import threading
import time

from . import core

FREE_AFTER = 0.5        # seconds without a step of the running thread (it waits for a lock of another one): let all run


class Scheduler:
    """Token passing. Each line event of a blueqat frame is a scheduling point; the seeded source decides who runs next."""

    def __init__(self, rng, n, density):
        self.rng, self.density = random.Random(rng.getrandbits(64)), density
        self.cond = threading.Condition()
        self.alive = set(range(n))
        self.turn = self.rng.randrange(n)
        self.free = False
        self.steps = 0
        self.switches = []
        self.prefix = os.path.join(os.path.abspath(core.REPO), "blueqat") + os.sep

    def wait(self, me):
        seen, since = self.steps, time.monotonic()
        with self.cond:
            while not self.free and self.turn != me:
                if not self.cond.wait(FREE_AFTER / 5):
                    if self.steps != seen:
                        seen, since = self.steps, time.monotonic()
                    elif time.monotonic() - since > FREE_AFTER:
                        self.free = True
                        self.cond.notify_all()

    def point(self, me, where):
        self.steps += 1
        if self.free or len(self.alive) < 2 or self.rng.random() >= self.density:
            return
        to = self.rng.choice(sorted(self.alive - {me}))
        self.switches.append((me, to) + where)
        with self.cond:
            self.turn = to
            self.cond.notify_all()
        self.wait(me)

    def done(self, me):
        with self.cond:
            self.alive.discard(me)
            if self.turn == me and self.alive:
                self.turn = self.rng.choice(sorted(self.alive))
            self.cond.notify_all()

    def tracer(self, me):
        def local(frame, event, arg):
            if event == "line":
                self.point(me, (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            return local

        def call(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(self.prefix) else None
        return call


def controlled(rng, jobs, density):
    """Returns (outcomes, switches): outcome is ("ok", value) or ("raised", exception)."""
    s = Scheduler(rng, len(jobs), density)
    out = [None] * len(jobs)

    def body(me):
        s.wait(me)
        sys.settrace(s.tracer(me))
        try:
            out[me] = ("ok", jobs[me]())
        except Exception as e:
            out[me] = ("raised", e)
        finally:
            sys.settrace(None)
            s.done(me)
    _run(body, len(jobs))
    return out, s.switches


def free(jobs, interval=1e-6):
    """The interpreter's own preemption, as frequent as it gets."""
    out = [None] * len(jobs)
    gate = threading.Barrier(len(jobs))

    def body(me):
        gate.wait()
        try:
            out[me] = ("ok", jobs[me]())
        except Exception as e:
            out[me] = ("raised", e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(interval)
    try:
        _run(body, len(jobs))
    finally:
        sys.setswitchinterval(old)
    return out


def _run(body, n):
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
    for th in ts:
        th.start()
    for th in ts:
        while th.is_alive():
            th.join(1)
