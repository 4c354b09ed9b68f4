"""Runner of the runtime monitors: deterministic cases, fork pool, evidence, replays."""
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import json
import os
import mmap
import random
import re
import shutil
import signal
import struct
import sys
import time
import traceback
import warnings

from concurrent.futures.process import BrokenProcessPool

from . import ref
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BLUEQAT_REPO", "/repo")
OUT = os.environ.get("BLUEQAT_VERIF_OUT", os.path.join(VERIF, "out"))
EVIDENCE = os.environ.get("BLUEQAT_VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
CASE_CPU_S = 60
LINES = set()          # (file, line) of blueqat executed in this process
CODES = []             # code objects of blueqat loaded in this process
_TOOL = 3


# --------------------------------------------------------------------------- import of the code under test
class _Loader(importlib.machinery.SourceFileLoader):
    """Compiles from the current source, never from or to a .pyc, and arms line coverage."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        code = self.source_to_code(self.get_data(path), path)
        _arm(code)
        return code


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "blueqat" and not name.startswith("blueqat."):
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            file, sub = os.path.join(base, "__init__.py"), [base]
        elif os.path.isfile(base + ".py"):
            file, sub = base + ".py", None
        else:
            return None
        return importlib.util.spec_from_file_location(name, file, loader=_Loader(name, file), submodule_search_locations=sub)


def _arm(code):
    CODES.append(code)
    try:
        sys.monitoring.set_local_events(_TOOL, code, sys.monitoring.events.LINE)
    except Exception:
        pass
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            _arm(c)


def _on_line(code, line):
    LINES.add((code.co_filename, line))
    return sys.monitoring.DISABLE


def load_blueqat():
    sys.dont_write_bytecode = True
    try:
        sys.monitoring.use_tool_id(_TOOL, "vf")
        sys.monitoring.register_callback(_TOOL, sys.monitoring.events.LINE, _on_line)
    except Exception:
        pass
    sys.meta_path.insert(0, _Finder())
    warnings.simplefilter("ignore")
    import blueqat
    if not os.path.abspath(blueqat.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError(f"blueqat imported from {blueqat.__file__}, not from {REPO}")
    return blueqat


# --------------------------------------------------------------------------- cases
class Violation(Exception):
    def __init__(self, msg, info=None):
        super().__init__(msg)
        self.msg = msg
        self.info = info or {}


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


class T:
    """Context of one case: its random source and what its monitors observed."""

    def __init__(self, prop, kind, idx, seed, known=()):
        self.prop, self.kind, self.idx, self.seed = prop, kind, idx, seed
        self.rng = random.Random(f"{seed}:{prop}:{kind}:{idx}")
        self.events = Counter()
        self.keys = set()
        self.sample = None
        self.known_ids = known
        self.known_hits = Counter()
        self.trace = []

    def ev(self, name, n=1):
        self.events[name] += n

    def key(self, *parts):
        """Declares this case non-trivial, with the structure that makes it distinct."""
        self.keys.add(hash_of(parts))

    def log(self, s):
        self.trace.append(str(s))

    def fail(self, msg, **info):
        raise Violation(msg, info)

    def check(self, cond, msg, **info):
        if not cond:
            raise Violation(msg, info)

    def known(self, fid):
        """The observed deviation is exactly the listed finding `fid`; False if it is not listed."""
        if fid in self.known_ids:
            self.known_hits[fid] += 1
            return True
        return False


def hash_of(parts):
    import hashlib
    return hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest()


def _seed_globals(prop, kind, idx, seed):
    import numpy as np
    r = random.Random(f"g:{seed}:{prop}:{kind}:{idx}")
    random.seed(r.getrandbits(64))
    np.random.seed(r.getrandbits(32))


def run_one(mod, prop, kind, idx, seed, known):
    """Runs one case. Returns (T, None) or (T, violation dict)."""
    t = T(prop, kind, idx, seed, known)
    _seed_globals(prop, kind, idx, seed)
    signal.signal(signal.SIGVTALRM, _alarm)
    limit = getattr(mod, "CASE_CPU_S", CASE_CPU_S)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    v = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.case(t, kind)
    except Violation as e:
        v = dict(msg=e.msg, info={k: _short(x) for k, x in e.info.items()})
    except CaseTimeout:
        if getattr(mod, "SLOW_SHARE", 0):
            t.ev("slow_skipped")
        else:
            v = dict(msg=f"no progress: the case used more than {limit} s of CPU", info={})
    except ref.TooMany:
        t.ev("too_large_skipped")
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        v = dict(msg=f"unexpected {type(e).__name__} on valid input: {e}",
                 info=dict(traceback=traceback.format_exc()[-3000:]))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    if v is not None:
        v.update(kind=kind, idx=idx, trace=t.trace[-200:])
    return t, v


def _short(x):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) < 4000 else s[:4000] + "..."


_WORK = {}


def _chunk(args):
    number, tasks = args
    mod, prop, seed, known = _WORK["mod"], _WORK["prop"], _WORK["seed"], _WORK["known"]
    before = set(LINES)
    events, keys, hits, kinds = Counter(), set(), Counter(), Counter()
    samples, viols = [], []
    for pos, (kind, idx) in enumerate(tasks):
        _WORK["at"][number * 4:number * 4 + 4] = struct.pack("<i", pos + 1)
        t, v = run_one(mod, prop, kind, idx, seed, known)
        events.update(t.events)
        keys |= t.keys
        hits.update(t.known_hits)
        kinds[kind] += 1
        if t.sample and len(samples) < 2:
            samples.append(f"{kind}#{idx}: " + _short(t.sample)[:600])
        if v:
            viols.append(v)
            if len(viols) >= 3:
                break
    _WORK["at"][number * 4:number * 4 + 4] = struct.pack("<i", 0)
    return events, keys, hits, kinds, samples, viols, LINES - before


def _crashed(chunks, mod, prop, seed, known):
    """A worker died. Runs the cases that were under way alone: violations for those that crash the interpreter again."""
    import multiprocessing as mp
    out = []
    for number, c in enumerate(chunks):
        pos = struct.unpack("<i", _WORK["at"][number * 4:number * 4 + 4])[0]
        if not pos:
            continue
        kind, idx = c[pos - 1]
        p = mp.get_context("fork").Process(target=run_one, args=(mod, prop, kind, idx, seed, known))
        p.start()
        p.join(300)
        if p.is_alive():
            p.kill()
        elif p.exitcode in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGILL):
            out.append(dict(msg=f"the interpreter crashed ({signal.Signals(-p.exitcode).name})", info={}, kind=kind, idx=idx, trace=[]))
    return out


def load_known(prop):
    """The listed findings of this property: {id: what}. Lines 'fixed: ...' suppress nothing."""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    for line in open(path) if os.path.exists(path) else ():
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            known[m.group(2)] = m.group(3).strip()
    return known


def run_check(prop, tier, seed):
    t0 = time.time()
    load_blueqat()
    mod = importlib.import_module(f"vf.props.{prop.lower()}")
    known = load_known(prop)
    plan = mod.plan(tier)
    scale = float(os.environ.get("VF_SCALE", "1"))          # development only (tools/mutate.py): a part of the workload
    tasks = [(kind, i) for kind, n in plan for i in range(max(1, int(n * scale)))]
    random.Random(12345).shuffle(tasks)          # balance the workers; outcomes do not depend on order
    workers = int(os.environ.get("VF_WORKERS", str(min(8, os.cpu_count() or 1))))
    nchunk = max(1, min(len(tasks), workers * getattr(mod, "CHUNKS", 6)))
    chunks = [tasks[i::nchunk] for i in range(nchunk)]
    _WORK.update(mod=mod, prop=prop, seed=seed, known=tuple(known), at=mmap.mmap(-1, 4 * nchunk))
    if hasattr(mod, "prepare"):
        mod.prepare()
    events, keys, hits, kinds = Counter(), set(), Counter(), Counter()
    samples, viols, lines = [], [], set(LINES)
    if workers == 1:
        results = map(_chunk, enumerate(chunks))
        pool = None
    else:
        import concurrent.futures as cf
        import multiprocessing as mp
        pool = cf.ProcessPoolExecutor(workers, mp_context=mp.get_context("fork"))
        futs = [pool.submit(_chunk, x) for x in enumerate(chunks)]
        results = (f.result(timeout=840) for f in futs)
    n_done = 0
    try:
        for e, k, h, kd, s, v, ln in results:
            events.update(e)
            keys |= k
            hits.update(h)
            kinds.update(kd)
            samples += s
            viols += v
            lines |= ln
            n_done += sum(kd.values())
            if len(viols) >= 5:
                break
    except BrokenProcessPool:
        viols += _crashed(chunks, mod, prop, seed, tuple(known))
        if not viols:
            raise
    finally:
        if pool is not None:
            for p in list(getattr(pool, "_processes", {}).values()):
                if len(viols) >= 5:
                    p.kill()
            pool.shutdown(wait=len(viols) < 5, cancel_futures=True)

    # listed findings: reproduce each one
    for fid, what in known.items():
        probe = getattr(mod, "PROBES", {}).get(fid)
        if probe is None:
            print(f"note: no probe for listed finding {fid}")
            continue
        try:
            again = probe()
        except Exception:
            again = False
            traceback.print_exc()
        if again:
            print(f"KNOWN-FINDING: property={prop} {what}")
        else:
            print(f"note: listed finding {fid} did not reproduce")

    viols.sort(key=lambda v: (v["kind"], v["idx"]))
    outdir = os.path.join(OUT, prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    for i, v in enumerate(viols[:5]):
        path = os.path.join(outdir, f"v{i}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, **v), f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {v['kind']}#{v['idx']}: {v['msg']}")
        for k, x in v["info"].items():
            print(f"    {k}: {x[:1500]}")

    need = getattr(mod, "REQUIRED", [])
    if tier == "thorough":
        need = list(need) + list(getattr(mod, "REQUIRED_THOROUGH", []))
    missing = [e for e in need if events[e] == 0] if not viols else []
    perfile = Counter(os.path.relpath(f, REPO) for f, _ in lines)
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
              coverage=dict(evaluations=n_done, distinct_nontrivial=len(keys), rule=mod.RULE,
                            samples=sorted(samples)[:6] or ["none"], kinds=dict(kinds), observed_events=dict(events),
                            known_finding_hits=dict(hits), blueqat_lines_executed=dict(perfile)),
              assumptions=getattr(mod, "ASSUMES", ["the reference semantics in vf/ref.py"]),
              wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if viols:
        return 1
    if events["slow_skipped"] > max(3, getattr(mod, "SLOW_SHARE", 0) * n_done):
        print(f"INCONCLUSIVE property={prop}: {events['slow_skipped']} of {n_done} cases ran out of time")
        return 3
    if missing or not n_done:
        print(f"INCONCLUSIVE property={prop}: never observed {missing}")
        return 3
    print(f"OK property={prop} tier={tier} seed={seed} cases={n_done} distinct={len(keys)} wall={ev['wall_s']}s "
          + " ".join(f"{k}={v}" for k, v in sorted(events.items())))
    return 0
