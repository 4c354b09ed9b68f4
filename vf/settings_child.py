"""Run by U04 in an interpreter of its own: Blueqat's features under the interpreter and process settings that the job names.

Reads {"repo", "seed", "steps", "late", "settings", "qiskit"} as JSON from stdin; prints {"events", "out", "log", "error", "broken"} as JSON. `out` are the
results of the steps, which U04 compares with those of an interpreter with ordinary settings.
"""
import asyncio
import atexit
import decimal
import gc
import importlib
import io
import json
import locale
import logging
import math
import numbers
import os
import random
import signal
import sys
import threading
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOUCHED = []
WARNED = []
WATCH = [False]


class Bad(Exception):
    pass


def audit(event, args):
    """What the interpreter reports about files, processes and connections while Blueqat's code runs."""
    if not WATCH[0]:
        return
    if event == "open":
        mode, flags = args[1], args[2]
        if (mode and set("wax+") & set(mode)) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)):
            TOUCHED.append(f"open {args[0]!r} {mode!r}")
    elif event in ("os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.truncate", "os.chmod", "os.link", "os.symlink", "os.system", "os.exec", "os.posix_spawn", "os.fork", "subprocess.Popen", "socket.connect",
                   "socket.bind", "socket.sendto", "tempfile.mkstemp", "tempfile.mkdtemp", "shutil.copyfile", "shutil.move", "os.putenv", "os.unsetenv", "os.chdir", "os.kill", "sqlite3.connect", "webbrowser.open"):
        TOUCHED.append(f"{event} {args!r}"[:200])


def snap(np, mpmath):
    ctx = decimal.getcontext()
    po = np.get_printoptions()
    return {
        "numpy's error state": np.geterr(), "numpy's error call": np.geterrcall(), "numpy's print options": {k: v if k != "formatter" else str(v) for k, v in po.items()}, "numpy's buffer size": np.getbufsize(),
        "warning filters": [str(f) for f in warnings.filters], "warnings.showwarning": id(warnings.showwarning), "sys.path": list(sys.path), "sys.meta_path": [id(x) for x in sys.meta_path],
        "environment": dict(os.environ), "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(),
        "garbage collection": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks)), "signal handlers": [repr(signal.getsignal(s)) for s in sorted(signal.valid_signals())],
        "timers": (signal.getitimer(signal.ITIMER_REAL)[0] > 0, signal.getitimer(signal.ITIMER_VIRTUAL)[0] > 0), "locale": locale.setlocale(locale.LC_ALL),
        "decimal context": (ctx.prec, ctx.rounding, ctx.Emin, ctx.Emax, ctx.capitals, str(sorted(map(str, [k for k, v in ctx.traps.items() if v])))),
        "logging": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable), "standard streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), id(sys.unraisablehook), id(sys.breakpointhook)), "tracing": (sys.gettrace(), sys.getprofile()),
        "threads": threading.active_count(), "int digits": sys.get_int_max_str_digits(), "atexit": atexit._ncallbacks(), "builtins": sorted(vars(__builtins__)) if not isinstance(__builtins__, dict) else sorted(__builtins__),
        "umask": umask(), "mpmath precision": (mpmath.mp.prec, mpmath.iv.prec), "sys.argv": list(sys.argv), "sys.flags": str(sys.flags), "open files": len(os.listdir("/proc/self/fd")),
        "asyncio policy": type(asyncio.get_event_loop_policy()).__name__, "priority": os.nice(0), "bytecode": (sys.dont_write_bytecode, sys.pycache_prefix), "cwd": cwd(),
    }


def umask():
    m = os.umask(0o77)
    os.umask(m)
    return m


def cwd():
    try:
        return os.getcwd()
    except OSError:
        return "gone"


def apply(name, np, mpmath):
    if name == "np_raise":
        np.seterr(divide="raise", invalid="raise", over="raise")
    elif name == "np_call":
        np.seterrcall(lambda *a: None)
        np.seterr(all="call")
    elif name == "np_print":
        np.set_printoptions(precision=1, suppress=True, threshold=2, edgeitems=1, linewidth=20, sign="+", nanstr="?")
    elif name == "np_legacy":
        np.set_printoptions(legacy="1.13")
    elif name == "np_buffer":
        np.setbufsize(16)
    elif name == "decimal":
        decimal.setcontext(decimal.Context(prec=1, rounding=decimal.ROUND_UP, traps=[decimal.Inexact, decimal.FloatOperation]))
    elif name == "gc_off":
        gc.disable()
    elif name == "gc_hard":
        gc.set_threshold(3, 2, 2)
    elif name == "switch":
        sys.setswitchinterval(1e-5)
    elif name == "warn_error":
        warnings.simplefilter("error")
        for m in ("mpmath", "sympy", "numpy", "scipy", "qiskit", "stevedore", "rustworkx", "symengine", "dateutil", "sparse", "vf"):
            warnings.filterwarnings("ignore", module=m + r"(\.|$)")
        warnings.filterwarnings("ignore", message="(?s).*[Qq]iskit")
    elif name == "stdout_none":
        sys.stdout = sys.stderr = sys.stdin = None
    elif name == "stdout_closed":
        sys.stdout = io.StringIO()
        sys.stdout.close()
    elif name == "mp_dps":
        mpmath.mp.dps = 4
    elif name == "cwd_gone":
        d = os.path.join(os.getcwd(), "gone")
        os.mkdir(d)
        os.chdir(d)
        os.rmdir(d)
    elif name == "umask":
        os.umask(0o777)
    elif name == "profile":
        sys.setprofile(lambda *a: None)
    elif name == "trace":
        sys.settrace(lambda *a: None)
    elif name == "environ":
        for k in list(os.environ):
            if k.startswith(("PYTHON", "LC_", "LANG", "HOME", "TZ", "PATH", "TERM", "USER")):
                del os.environ[k]
    elif name == "logging_off":
        logging.disable(logging.CRITICAL)
    elif name == "int_digits":
        sys.set_int_max_str_digits(640)
    elif name == "limit":
        sys.setrecursionlimit(5000)


def canonical(x, np):
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, numbers.Integral):
        return float(x)
    if isinstance(x, numbers.Real):
        return float(x) if math.isfinite(x) else str(float(x))
    if isinstance(x, numbers.Complex):
        return [float(x.real), float(x.imag)]
    if isinstance(x, dict):
        return sorted(([str(tuple(int(v) for v in k)) if isinstance(k, tuple) else str(k), canonical(v, np)] for k, v in x.items()), key=lambda kv: kv[0])
    if isinstance(x, np.ndarray):
        return [canonical(v, np) for v in x.ravel()]
    if isinstance(x, (list, tuple)):
        return [canonical(v, np) for v in x]
    raise TypeError(f"result of type {type(x)}")


def refusals():
    from blueqat import Circuit, BlueqatGlobalSetting, pauli, utils, vqe, wq
    import numpy as np

    def late():
        c = Circuit(2).h[0].cx[0, 0]
        c.run()

    def annealer():
        o = wq.Opt()
        o.qubo = [[1.0]]
        o.run(sampler="normal", shots="many")
    fs = [lambda: Circuit().x["a"], lambda: Circuit(1).x[0].run(backend="no such"), lambda: Circuit().no_such[0], lambda: Circuit().h[0].m[0].dagger(), lambda: Circuit().set_default_backend("no such"),
          lambda: BlueqatGlobalSetting.register_macro("x", print), lambda: BlueqatGlobalSetting.unregister_gate("no such"), lambda: Circuit(1).x[0].run(returns="no such"), lambda: pauli.X[0] ** -1,
          lambda: pauli.X[0] + "a", lambda: utils.to_inttuple(3.5), lambda: Circuit().u3(1)[0], lambda: Circuit(2).x[5:].y[-4].run(), late, lambda: (pauli.X[3] * 1.0).to_matrix(2), lambda: pauli.X[-1], annealer,
          lambda: Circuit(1).run(shots=3, returns="no such"), lambda: (1j * pauli.X[0]).get_time_evolution(), lambda: Circuit(1) + 3]
    return fs


def main():
    job = json.load(sys.stdin)
    result = os.fdopen(os.dup(1), "w")
    caught = os.memfd_create("caught")
    os.dup2(caught, 1)
    os.dup2(caught, 2)
    sys.path[:0] = [job["repo"], HERE]
    sys.dont_write_bytecode = True
    events, log, out = {}, [], []
    ev = lambda k: events.__setitem__(k, events.get(k, 0) + 1)
    error = broken = None
    try:
        warnings.simplefilter("ignore")
        import numpy as np
        import scipy.optimize, scipy.sparse, scipy.sparse.linalg  # noqa
        import sympy  # noqa
        import mpmath
        import concurrent.futures  # noqa
        if job["qiskit"]:
            importlib.import_module("qiskit")
            importlib.import_module("qiskit_aer")
            from qiskit import Aer, QuantumCircuit, execute
            q = QuantumCircuit.from_qasm_str('OPENQASM 2.0;include "qelib1.inc";qreg q[1];creg c[1];x q[0];measure q[0]->c[0];')
            execute(q, backend=Aer.get_backend("qasm_simulator"), shots=3).result().get_counts()
        warnings.resetwarnings()
        warnings.showwarning = lambda message, category, filename, lineno, file=None, line=None: WARNED.append((filename, lineno, category.__name__, str(message)[:200]))
        warnings.simplefilter("always")
        np.array([1.0]) @ np.array([1.0])
        sys.addaudithook(audit)

        def settings(names):
            for s in names:
                apply(s, np, mpmath)
                ev("set_" + s)

        def watched(f, what):
            """f() with the settings compared before and after."""
            before = snap(np, mpmath)
            WATCH[0] = True
            try:
                return f()
            finally:
                WATCH[0] = False
                after = snap(np, mpmath)
                diff = {k: (before[k], after[k]) for k in before if before[k] != after[k]}
                for k, (a, b) in diff.items():
                    if isinstance(a, dict):
                        diff[k] = {x: (a.get(x), b.get(x)) for x in {**a, **b} if a.get(x) != b.get(x)}
                if diff:
                    raise Bad(f"{what} changed settings of the process: {str(diff)[:900]}")
                ev("left_alone")

        names = job["settings"]
        plain = [s for s in names if not s.startswith(("in_", "py_", "env_"))]
        early = [s for s in plain if s not in job["late"]]
        settings(early)
        try:
            watched(lambda: importlib.import_module("blueqat"), "importing Blueqat")
            for m in ("blueqat.wq", "blueqat.experimental.operations", "blueqat.experimental.utils"):
                watched(lambda: importlib.import_module(m), "importing " + m)
        except Bad:
            raise
        except BaseException as e:
            raise Bad(f"Blueqat cannot be imported: {type(e).__name__}: {e}")
        bq = sys.modules["blueqat"]
        if not os.path.abspath(bq.__file__).startswith(os.path.abspath(job["repo"]) + os.sep):
            raise RuntimeError(f"blueqat imported from {bq.__file__}")
        ev("imported")
        from vf import apisweep, optional_child
        from vf.props import c12
        from blueqat import Circuit, vqe, wq, pauli
        settings(s for s in plain if s not in early)
        rng = random.Random(job["seed"])
        fs = optional_child.features(rng, np, bq)
        own = [n for n in fs if not fs[n][0] and "qiskit" not in n] + [n for n in fs if fs[n][0] == ("sympy",)]
        qk = ["qiskit_circuit", "qiskit_exception"]
        bad = refusals()
        where = [s for s in names if s.startswith("in_")]

        def deprecated(a):
            """Deprecated calls work, and warn of it (an error, if warnings are)."""
            c = Circuit(1).x[0]
            r = vqe.VqeResult(None, [1.0], c)
            v = vqe.Vqe(vqe.QaoaAnsatz(1.0 * pauli.Z[0], 1))
            f = [lambda: c.copy(copy_cache=True).run(), lambda: c.copy(copy_history=False).run(), lambda: vqe.VqeResult(v, [1.0], c).probs, lambda: v.result.params, lambda: c.run(shots=2, returns="statevector")][a]
            old = list(warnings.filters), len(WARNED)
            try:
                got = f()
            except Warning:
                if "warn_error" not in names:
                    raise
                got = None
            if list(warnings.filters) != old[0]:
                raise Bad(f"deprecated call {a} changed the warning filters")
            if "warn_error" not in names:
                if len(WARNED) == old[1]:
                    raise Bad(f"deprecated call {a} does not warn")
                del WARNED[old[1]:]
            return None if got is None else got if "warn_error" in names else None

        def big(a):
            """A wider circuit, a longer one, a larger sum."""
            if a == 0:
                c = Circuit().h[:13].cx[:12, 1:].rz(.3)[::2]
                u = c.run()
                return [u[::511], len(u)]
            if a == 1:
                c = Circuit(2)
                for i in range(700):
                    c.ry(.01 * i)[i % 2].cz[0, 1]
                return [c.run(), len(repr(c))]
            if a == 2:
                e = sum((.1 * i * pauli.Z[i] * pauli.X[i + 1] for i in range(60)), pauli.Expr.zero())
                return [len((e * e).simplify().terms), (e + pauli.Y[3]).simplify().n_qubits]
            if a == 3:
                return sorted(vqe.get_measurement_sampler(500)(Circuit(10).h[:].x[0], tuple(range(10))[::-3]))[0]
            if a == 4:
                ansatz = vqe.QaoaAnsatz(pauli.Z[0] * pauli.Z[1] + .5 * pauli.Z[0], 4)
                f = ansatz.get_objective(None)
                return [f(np.array([.25] * k + [.4] * (7 - k) + [.5])) for k in range(1, 7)]
            q = [[float((3 * i + 5 * j) % 7 - 3) if i <= j else 0 for j in range(24)] for i in range(24)]
            o = wq.Opt()
            o.qubo, o.ite, o.R = q, 200, .5
            x = o.run(sampler="fast")
            v = sum(q[i][j] * x[i] * x[j] for i in range(24) for j in range(24))
            if abs(v - o.E[-1]) > 1e-6:
                raise Bad(f"the annealer reports {o.E[-1]} for an assignment of energy {v}")
            return len(x)

        def verbose(a):
            text = io.StringIO()
            old, sys.stdout = sys.stdout, text
            try:
                kind = a[0]
                if kind == "vqe":
                    vqe.Vqe(vqe.QaoaAnsatz(1.0 * pauli.Z[0] - .5 * pauli.Z[0] * pauli.Z[1], 1), minimizer=lambda f, n: [.25] * n if f([.25] * n) < 9 else []).run(verbose=True)
                else:
                    o = wq.Opt()
                    o.setRBM([2, 1])
                    random.seed(a[1])
                    np.random.seed(a[1])
                    o.fit([[1, 1], [0, 0]], shots=2, targetT=3.0, epoch=2, verbose=True)
            finally:
                sys.stdout = old
            if not text.getvalue():
                raise Bad(f"{kind}: verbose=True prints nothing to the present sys.stdout")
            return bool(text.getvalue())

        for step in range(job["steps"]):
            r = rng.random()
            if r < .3:
                state = rng.getstate()
                picked = rng.sample(sorted(apisweep.calls(rng)), 4)
                s = rng.getrandbits(31)

                def work(picked=picked, s=s, state=state):
                    own_rng = random.Random()
                    own_rng.setstate(state)
                    fs = apisweep.calls(own_rng)
                    got = []
                    for name in picked:
                        c12.seed(s)         # SymPy draws from the global generators, too
                        got.append([name, fs[name]()])
                    return got
                what = "sweep " + "+".join(picked)
            elif r < .5:
                kind, f = c12.gen_job(rng)
                s = rng.getrandbits(31)

                def work(f=f, s=s):
                    c12.seed(s)
                    return f()
                what = "sample_" + kind
            elif r < .65:
                kind, work = c12.gen_quiet(rng)
                what = "quiet_" + kind
            elif r < .84:
                kind = rng.choice(own + (qk * 3 if job["qiskit"] else []))
                f = fs[kind][1]
                state = rng.getstate()

                def work(f=f):
                    rng.setstate(state)
                    f()
                    return True
                what = kind
            elif r < .87:
                a = rng.randrange(5)
                work = lambda a=a: deprecated(a)
                what = f"deprecated {a}"
            elif r < .9:
                a = rng.randrange(6)
                work = lambda a=a: big(a)
                what = f"big {a}"
            elif r < .96:
                ks = rng.sample(range(len(bad)), 6)

                def work(ks=ks):
                    got = []
                    for k in ks:
                        try:
                            bad[k]()
                            got.append("accepted")
                        except Exception as e:
                            got.append(type(e).__name__)
                    return got
                what = f"refusal {ks}"
            else:
                a = (rng.choice(["vqe", "fit"]), rng.getrandbits(30))
                work = lambda a=a: verbose(a)
                what = f"verbose {a[0]}"
            log.append(what)
            after = rng.getrandbits(60)
            place = rng.choice(where + ["in_main"]) if where else "in_main"
            try:
                got = run_in(place, lambda: watched(work, what))
            except Bad:
                raise
            except optional_child.Bad as e:
                raise Bad(f"{what} ({place}): {e}")
            except BaseException as e:
                raise Bad(f"{what} ({place}): {type(e).__name__}: {e}; {''.join(traceback.format_exc()[-1200:])}")
            ev(place)
            ev(what.split()[0].split("_")[0] if what.startswith(("sample", "quiet", "refusal", "verbose", "deprecated", "big", "sweep")) else "feature")
            out.append(canonical(got, np))
            rng = random.Random(after)
            fs = optional_child.features(rng, np, bq)
        if job["qiskit"]:
            ev("with_qiskit")
        os.lseek(caught, 0, 0)
        text = os.read(caught, 1 << 20).decode(errors="replace")
        for h in (sys.stdout, sys.stderr):
            if h is not None and not h.closed:
                h.flush()
        os.lseek(caught, 0, 0)
        text = os.read(caught, 1 << 20).decode(errors="replace")
        mine = [ln for ln in text.splitlines() if ln.strip() and not ("-X" in names)]
        if "py_dev" not in names and mine or any("blueqat" in ln for ln in mine):
            raise Bad(f"ordinary use printed {text[:600]!r}")
        ev("silent")
        repo = os.path.abspath(job["repo"])
        own_warnings = [w for w in WARNED if (w[0].startswith(repo) or w[0].startswith(os.path.join(HERE, "vf"))) and "iskit" not in w[3] and "ibmq" not in w[0]]
        if own_warnings:
            raise Bad(f"ordinary use warns: {own_warnings[:3]}")
        ev("no_warnings")
        if TOUCHED:
            raise Bad(f"ordinary use touches files or processes: {TOUCHED[:5]}")
        ev("touched_nothing")
    except Bad as e:
        error = str(e)
    except BaseException:
        broken = traceback.format_exc()
    sys.setprofile(None)
    sys.settrace(None)
    result.write(json.dumps(dict(events=events, log=log, out=out, error=error, broken=broken)) + "\n")
    result.close()
    os._exit(0)


def run_in(place, f):
    if place == "in_thread":
        box = []

        def go():
            try:
                box.append((f(), None))
            except BaseException as e:
                box.append((None, e))
        th = threading.Thread(target=go)
        th.start()
        th.join()
        if box[0][1] is not None:
            raise box[0][1]
        return box[0][0]
    if place == "in_asyncio":
        async def co():
            await asyncio.sleep(0)
            return f()
        return asyncio.run(co())
    if place == "in_deep":
        def down(k):
            return f() if not k else down(k - 1)
        return down(250)
    if place == "in_handler":
        try:
            raise KeyError("being handled")
        except KeyError:
            return f()
    if place == "in_generator":
        def g():
            yield f()
        return next(g())
    if place == "in_signal":
        box = []

        def h(*a):
            try:
                box.append((f(), None))
            except BaseException as e:
                box.append((None, e))
        old = signal.signal(signal.SIGUSR1, h)
        signal.raise_signal(signal.SIGUSR1)
        signal.signal(signal.SIGUSR1, old)
        if box[0][1] is not None:
            raise box[0][1]
        return box[0][0]
    return f()


if __name__ == "__main__":
    main()
