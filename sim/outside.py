"""C21: using the library changes nothing outside it."""
import atexit
import builtins
import copyreg
import decimal
import faulthandler
import gc
import io
import locale
import logging
import os
import random
import resource
import signal
import sys
import threading
import tracemalloc
import warnings

import numpy as np
import scipy.special

import boot
from boot import ADAPTIVE, STAGES, ETDConfig, SolverConfig, derivatives, grids, models, transforms
from control import sliding
from core import HARD, setting_ops
from env import EXC, LineTrace
from misc import Threaded, gen_sched, run_sched
from problems import make_solver
from simlib import BAD, Client, add_faults, gen_evolve, gen_step

HANDLING = ("ignore", "ignore", "warn", "call", "raise")
KINDS = ("divide", "over", "under", "invalid")


def digest(x):
    import hashlib
    return hashlib.sha256(repr(x).encode()).hexdigest()[:16]


def surroundings(fds=True):
    """What a program may rely on the library not to touch."""
    r = np.random.get_state()
    s = {
        "NumPy error handling": np.geterr(),
        "NumPy error callback": np.geterrcall(),
        "NumPy print options": {k: repr(v) for k, v in np.get_printoptions().items()},
        "NumPy buffer size": np.getbufsize(),
        "NumPy random state": digest((r[0], r[1].tolist(), r[2:])),
        "SciPy special function errors": scipy.special.geterr(),
        "random state": digest(random.getstate()),
        "warning filters": list(warnings.filters),
        "warning display": warnings.showwarning,
        "logging level of the root": logging.root.level,
        "logging handlers of the root": list(logging.root.handlers),
        "logging filters of the root": list(logging.root.filters),
        "logging disabled below": logging.root.manager.disable,
        "logging errors": logging.raiseExceptions,
        "logging of last resort": logging.lastResort and (logging.lastResort, logging.lastResort.level),
        "logger class": logging.getLoggerClass(),
        "level names": dict(logging._levelToName),
        "signal handlers": [signal.getsignal(n) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGFPE, signal.SIGALRM, signal.SIGUSR1)],
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "exception hook": sys.excepthook,
        "thread hook": threading.excepthook,
        "standard output": sys.stdout,
        "standard error": sys.stderr,
        "import path": list(sys.path),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "garbage collection": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "locale": locale.setlocale(locale.LC_ALL),
        "decimal context": repr(decimal.getcontext()),
        "NumPy functions": tuple(id(getattr(np, n)) for n in ("exp", "abs", "power", "zeros", "dot", "isinf")),
        "threads": threading.active_count(),
        "stack size of threads": threading.stack_size(),
        "builtins": {k: id(v) for k, v in vars(builtins).items() if k != "_"},
        "functions to run at exit": atexit._ncallbacks(),
        "garbage collection callbacks": [id(f) for f in gc.callbacks],
        "audit of faults": (faulthandler.is_enabled(), tracemalloc.is_tracing()),
        "unraisable hook": sys.unraisablehook,
        "display hook": sys.displayhook,
        "profiler": (sys.getprofile(), threading.getprofile()),
        "resource limits": [resource.getrlimit(n) for n in (resource.RLIMIT_AS, resource.RLIMIT_STACK, resource.RLIMIT_NOFILE, resource.RLIMIT_CPU,
                                                            resource.RLIMIT_CORE, resource.RLIMIT_DATA)],
        "processors": sorted(os.sched_getaffinity(0)),
        "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "timers": [signal.getitimer(t) for t in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)],
        "logging record factory": logging.getLogRecordFactory(),
        "pickling": dict(copyreg.dispatch_table),
    }
    for n, lg in list(logging.root.manager.loggerDict.items()):
        if not n.startswith("rkstiff") and isinstance(lg, logging.Logger):
            s["logger " + n] = (lg.level, lg.propagate, lg.disabled, list(lg.handlers), list(lg.filters))
    if fds:
        s["open files"] = sorted(x for x in os.listdir("/proc/self/fd"))
    return s


class Out(io.StringIO):
    """Standard output of the simulated program."""

    def write(self, x):
        self.n = getattr(self, "n", 0) + len(x)
        return len(x)


class C21(Threaded):
    id = "C21"
    quick, thorough = 6000, 40000 * 4
    rule = ("one run = up to 6 calls on solvers (one, or several under a line-level thread schedule), transforms, grids, derivatives, "
            "models and settings, most struck by a fault or refused, in a program with its own floating-point handling, warning "
            "filters, random state and loggers, all compared before and after every call and inside the nonlinear function; "
            "non-trivial when a call failed or a nonlinear function saw the caller's settings")
    stub = "the program around the library (its settings), the nonlinear function, interrupts, failed allocations, thread scheduler"

    FNS = ("x_kx_rfft", "x_kx_fft", "x_cheb", "x_dx_cheb", "r_kr", "mirror", "dx_rfft", "dx_fft", "dx_cheb", "kdv", "burgers",
           "allen_cahn", "soliton", "multi", "config", "etd", "hankel", "solver", "eig")

    def world(self, g):
        return {"err": {k: g.pick(*HANDLING) for k in KINDS}, "special": g.pick("ignore", "ignore", "warn", "raise"),
                "warnings": g.pick("ignore", "ignore", "error", "default"), "seed": g.r.randint(0, 999), "root": g.pick(10, 20, 30, 40),
                "handler": g.chance(.4), "precision": g.pick(6, 8, 12), "other": g.pick(None, "numerics", "scipy.work")}

    def gen(self, g, tier):
        k = g.r.random()
        if k < .01:         # long enough for anything that happens only now and then
            p = g.problem(nls=["trig", "sat"], nmax=1, tame=True)
            if p["cls"] in ADAPTIVE:
                p["config"] = dict(g.config(p["tau"]), incr_f=4.5, epsilon=1e-2)
            n = g.r.randint(500, 2500) // (2 if p["cls"] in ADAPTIVE else 1)
            return {"kind": "solver", "world": self.world(g), "p": p, "level": None, "long": n,
                    "ops": [{"op": "evolve", "t0": 0.0, "tf": 3 * p["tau"], "h": 3 * p["tau"] / n, "store": g.chance(.5), "freq": 3}]}
        if k < .5:
            p = g.problem(nls=HARD, model_p=.1)
            if g.chance(.12) and p["cls"] in ADAPTIVE and not p.get("model"):
                sliding(g, p)           # forces steps to use up their attempts
            ops = []
            for _ in range(g.r.randint(1, 6)):
                o = gen_evolve(g, p) if g.chance(.35) else gen_step(g, p)
                if g.chance(.1):
                    o = setting_ops(g, p) or o
                elif g.chance(.1):
                    o = {"op": "loglevel", "level": g.pick("DEBUG", "INFO", "ERROR", "nonsense", 15)}
                elif g.chance(.05) and o["op"] == "step":
                    o["bad"] = g.pick(*BAD)
                else:
                    add_faults(g, p, o, .6)
                    o["faults"] = [f for f in o.get("faults") or [] if f["kind"] != "fp"]
                ops.append(o)
            return {"kind": "solver", "world": self.world(g), "p": p, "ops": ops, "level": g.pick(None, None, "DEBUG", "INFO", "ERROR")}
        if k < .7:
            cs = []
            for _ in range(g.pick(2, 2, 3)):
                p = g.problem(nls=HARD, model_p=0, nmax=3)
                cs.append({"p": p, "ops": [gen_step(g, p) for _ in range(g.r.randint(1, 3))], "fail": g.pick(None, None, 2, 5, 9),
                           "err": {k: g.pick(*HANDLING) for k in KINDS}})
            return {"kind": "threads", "world": self.world(g), "sched": gen_sched(g), "clients": cs}
        ops = []
        for _ in range(g.r.randint(1, 7)):
            o = {"op": g.pick(*self.FNS), "n": g.pick(4, 6, 8, 16), "seed": g.r.randint(0, 9999), "m": g.pick(0, 1, 2, 3), "bad": g.chance(.25)}
            if g.chance(.4):
                o["faults"] = [{"kind": "line", "n": g.r.randint(1, g.pick(5, 15, 40)), "what": g.pick("kbd", "mem")}]
            ops.append(o)
        return {"kind": "functions", "world": self.world(g), "ops": ops}

    # -- the program around the library ----------------------------------------
    def execute(self, run):
        run.check(not boot.IMPORT_CHANGED, "import", "importing the library changed: %s" % ", ".join(boot.IMPORT_CHANGED))
        w = run.scen["world"]
        keep = sys.stdout, list(warnings.filters)
        out = sys.stdout = Out()
        np.seterrcall(lambda kind, flag: None)
        np.seterr(**w["err"])
        scipy.special.seterr(all=w["special"])
        warnings.resetwarnings()
        warnings.simplefilter(w["warnings"])
        warnings.filterwarnings("ignore", message="a warning of the program's own")
        shown = []
        warnings.showwarning = lambda *a, **k: shown.append(1)
        np.random.seed(w["seed"])
        random.seed(w["seed"])
        np.set_printoptions(precision=w["precision"])
        logging.root.setLevel(w["root"])
        logging.lastResort = None
        if w["handler"]:
            logging.root.addHandler(logging.NullHandler())
        if w["other"]:
            lg = logging.getLogger(w["other"])
            lg.setLevel(w["root"] + 5)
            lg.addHandler(logging.NullHandler())
        try:
            boot.AUDIT.update(on=True, seen=[])
            try:
                getattr(self, s_kind(run))(run)
            finally:
                boot.AUDIT["on"] = False
            run.check(not boot.AUDIT["seen"], "reached", lambda: "; ".join(boot.AUDIT["seen"][:5]))
            run.check(getattr(out, "n", 0) == 0, "output", lambda: "%d characters were written to standard output" % out.n)
        finally:
            sys.stdout = keep[0]

    def same(self, run, before, what):
        after = surroundings("open files" in before)
        for k in before:
            run.check(after.get(k) == before[k], "changed", lambda: "%s: %s was %s, is %s" % (what, k, str(before[k])[:150], str(after.get(k))[:150]))
        for k in after:
            run.check(k in before, "changed", lambda: "%s: new %s" % (what, k))

    INSIDE = ("NumPy error handling", "NumPy error callback", "SciPy special function errors", "warning filters", "warning display",
              "NumPy random state", "random state", "signal handlers", "recursion limit", "garbage collection", "logging disabled below")

    def inside(self, run, want, cid):
        def hook(k, u):
            if k > 300 and k % 97:
                return
            run.nontrivial = True
            now = {"NumPy error handling": np.geterr(), "NumPy error callback": np.geterrcall(),
                   "SciPy special function errors": scipy.special.geterr(), "warning filters": list(warnings.filters),
                   "warning display": warnings.showwarning, "garbage collection": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
                   "recursion limit": sys.getrecursionlimit(), "logging disabled below": logging.root.manager.disable}
            for n in now:
                run.check(now[n] == want[n], "inside", lambda n=n: "nonlinear function of %s, call %d: %s is %s, the caller's is %s" % (
                    cid, k, n, str(now[n])[:150], str(want[n])[:150]))
        return hook

    def solver(self, run):
        s, p = run.scen, run.scen["p"]
        want = surroundings()
        A = Client(run, p, "a", hook=lambda k, u: self.inside(run, want, "a")(k, u), loglevel=s.get("level"))
        self.same(run, want, "making %s" % p["cls"])
        for i, o in enumerate(s["ops"]):
            want = surroundings()
            a = A.do(o, limit=8 * s.get("long", 0) or 1500)
            if a["kind"] != "ok":
                run.nontrivial = True
                run.probe["calls that failed"] += 1
            self.same(run, want, "op %d (%s: %s)" % (i, o["op"], a.get("exc") or "ok"))
            if a["kind"] != "ok":
                A.do({"op": "reset"})

    def threads(self, run):
        s = run.scen
        if not s["clients"]:
            return
        before = surroundings()
        warn = list(warnings.filters)

        def body(i, c):
            def go():
                np.seterrcall(lambda kind, flag: None)      # a thread's own
                np.seterr(**c["err"])
                st = STAGES[c["p"]["cls"]]
                want = surroundings(False)
                hooks = self.inside(run, want, "thread %d" % i)
                A = Client(run, c["p"], "t%d" % i, hook=hooks)
                for j, o in enumerate(c["ops"]):
                    if c["fail"] is not None:
                        o = dict(o, faults=[{"kind": "nl", "at": c["fail"] % (st + 2), "len": 1, "what": "fault"}])
                    A.do(o)
                    run.check(np.geterr() == want["NumPy error handling"], "changed", lambda: "thread %d, op %d: NumPy error handling is %s, was %s"
                              % (i, j, np.geterr(), want["NumPy error handling"]))
                    run.check(list(warnings.filters) == warn, "changed", lambda: "thread %d, op %d: warning filters changed" % (i, j))
            return go
        sc = run_sched(run, s, [body(i, c) for i, c in enumerate(s["clients"])])
        for i in sorted(sc.errors):
            raise sc.errors[i]
        self.same(run, before, "after the threads")

    def functions(self, run):
        T = [transforms.HankelTransform(6, 2.0)]
        for i, o in enumerate(run.scen["ops"]):
            want = surroundings()
            fn = self.thunk(o, T)
            tr = None
            for f in o.get("faults") or []:
                tr = LineTrace(run.env, f["n"], EXC[f["what"]], f["what"])
            res = "ok"
            try:
                if tr:
                    tr.start()
                try:
                    fn()
                finally:
                    if tr:
                        tr.stop()
            except BaseException as e:  # noqa: BLE001
                res = type(e).__name__
                run.nontrivial = True
                run.probe["calls that failed"] += 1
            if tr and tr.done and o["op"] == "hankel":
                T[0] = transforms.HankelTransform(6, 2.0)
            run.log(o["op"], res)
            self.same(run, want, "op %d (%s: %s)" % (i, o["op"], res))
            run.real[o["op"]] += 1

    def thunk(self, o, T):
        r = random.Random(o["seed"])
        n, k, m, bad = o["n"], o["op"], o["m"], o["bad"]
        v = np.array([r.uniform(-1, 1) for _ in range(n)])
        e = 1 if bad else 0
        if k == "x_kx_rfft":
            return lambda: grids.construct_x_kx_rfft(n + e, -1.0, 2.0)
        if k == "x_kx_fft":
            return lambda: grids.construct_x_kx_fft(n + e, -1.0, 2.0)
        if k == "x_cheb":
            return lambda: grids.construct_x_cheb(0 if bad else n, -1.0, 2.0)
        if k == "x_dx_cheb":
            return lambda: grids.construct_x_dx_cheb(1.5 if bad else n, -1.0, 2.0)
        if k == "r_kr":
            return lambda: grids.construct_r_kr_hankel(n, -1.0 if bad else 2.0)
        if k == "mirror":
            return lambda: grids.mirror_grid(np.arange(1.0, n + 1 + e), v)
        if k == "dx_rfft":
            return lambda: derivatives.dx_rfft(grids.construct_x_kx_rfft(n + 2 * e)[1], v, m)
        if k == "dx_fft":
            return lambda: derivatives.dx_fft(grids.construct_x_kx_fft(n + 2 * e)[1], v + 1j * v[::-1], m)
        if k == "dx_cheb":
            return lambda: derivatives.dx_cheb(grids.construct_x_dx_cheb(n - 1 + e)[1], v, m)
        if k == "allen_cahn":
            def ac():
                x, D = grids.construct_x_dx_cheb(n)
                return models.allen_cahn_ops(x, D)[1](np.full(n - 1, 1e300 if bad else .5))
            return ac
        if k in ("kdv", "burgers"):
            def km():
                kx = grids.construct_x_kx_rfft(n)[1]
                f = models.kdv_ops(kx)[1] if k == "kdv" else models.burgers_ops(kx, .1)[1]
                return f(np.fft.rfft(v * (1e200 if bad else 1)))
            return km
        if k == "soliton":
            return lambda: models.kdv_soliton(v * (1e5 if bad else 1), .7, .1, .2)
        if k == "multi":
            return lambda: models.kdv_multi_soliton(v * (1e5 if bad else 1), [.7, .4], [.1, -.3] + [0.0] * e, .2)
        if k == "config":
            return lambda: SolverConfig(epsilon=-1.0 if bad else 1e-3, minh=1e-9)
        if k == "etd":
            return lambda: ETDConfig(contour_points=0 if bad else 8, modecutoff=.02)
        if k == "hankel":
            def hk():
                t = T[0]
                if m == 0:
                    t.nr = 3 if bad else r.randint(4, 9)
                elif m == 1:
                    t.rmax = -1.0 if bad else r.uniform(.5, 3)
                else:
                    return (t.ht if m == 2 else t.iht)(np.cos(np.arange(t.nr + e)))
                return t.hankel_matrix()
            return hk

        if k == "eig":      # operators with eigenvectors that are hard or impossible to invert, and refused ones
            def eig():
                A = -np.diag(np.arange(1.0, n + 1))
                if m == 0:
                    A[0, 0] = -10.0 ** r.uniform(3, 9)
                elif m == 1:
                    A[0, 0] = 0.0
                elif m == 2:
                    A = np.triu(np.full((n, n), 1.0)) * -10.0 ** r.uniform(0, 4)
                else:
                    A += 10.0 ** r.uniform(0, 3) * np.diag(np.ones(n - 1), 1)
                cls = boot.CLASSES[r.choice(("ETD34", "ETD35", "IF34"))]
                s = cls(A[0] if bad else A, lambda u: .1 * u * u, diagonalize=True)
                return s.step(v.copy(), .01)
            return eig

        def mk():
            cls = boot.CLASSES[r.choice(sorted(boot.CLASSES))]
            L = -np.ones((2, 3)) if bad else -np.arange(1.0, n + 1) * (1e3 if m == 3 else 1)
            s = cls(L, np.sin)
            if m:
                s.step(v.copy(), .1)
                return s.evolve(v.copy(), 0.0, .2, .1)
        return mk


def s_kind(run):
    return {"solver": "solver", "threads": "threads", "functions": "functions"}[run.scen["kind"]]
