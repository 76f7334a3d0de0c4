"""C22: the same calls give the same results wherever and whenever they are made."""
import decimal
import gc
import io
import os
import random
import resource
import signal
import sys
import threading
import warnings

import numpy as np
import scipy.special

import boot
from base import Prop
from boot import ADAPTIVE, CLOCK, transforms
from control import sliding
from core import HARD, setting_ops
from outside import C21, HANDLING, KINDS
from problems import relerr
from simlib import BAD, STARTS, Client, brief, gen_evolve, gen_fault, gen_step, same_evolve, same_step

CLOCKS = ("frozen", "slow", "fast", "back", "jumps", "nan", "negative")


class Clock:
    """All clocks of the process, as the scenario has them."""

    def __init__(self, run, how, seed):
        self.run, self.how, self.r = run, how, random.Random("clock/%s" % seed)
        self.now = {}

    def __call__(self, name):
        t = self.now.get(name, 1.7e9 if name == "time" else 5e3)
        h = self.how
        if h == "slow":
            t += 1e-9
        elif h == "fast":
            t += 1e5
        elif h == "back":
            t -= 3600.0
        elif h == "negative":
            t = -abs(t) - .25
        elif h == "jumps":
            t = self.r.choice([t, t + 1e-3, t + 60.0, t + 3e7, t - 3e7, 0.0, 4e9])
        elif h == "nan" and name not in ("time",):
            t += self.r.choice([0.0, 1e12])
        self.now[name] = t
        self.run.env.fired["clock-" + h] += 1
        return t


def deep(n, fn):
    return fn() if n <= 0 else deep(n - 1, fn)


class C22(Prop):
    id = "C22"
    quick, thorough = 5000, 40000 * 4
    rule = ("one run = up to 7 calls on a solver or on transforms, grids, derivatives and models, made twice with the same arguments: once in "
            "an ordinary process and once in a world with other clocks, random state, error handling, warning filters, memory management, "
            "environment, thread and stack depth, and numbers of other types; results compared call by call; non-trivial when a call completed")
    stub = "the clocks and other surroundings of the process, the nonlinear function"

    def world(self, g):
        w = {"clock": g.pick(None, *CLOCKS), "seed": g.r.randint(0, 9999)}
        for k, p, v in (("err", .5, {k: g.pick("ignore", "warn", "call") for k in KINDS}), ("filters", .3, g.pick("ignore", "always", "default")),
                        ("gc", .4, g.pick("off", "often", "inside", "freeze")), ("thread", .25, g.pick(0, 1 << 20)), ("depth", .25, g.pick(50, 300, 600)),
                        ("env", .3, g.pick("empty", "more")), ("cwd", .2, True), ("buffer", .15, g.pick(16, 64, 8192 * 16)), ("print", .2, g.pick(0, 1, 3)),
                        ("cpus", .2, g.pick(1, 2, 64, None)), ("pid", .2, True), ("decimal", .1, 3), ("stdout", .2, g.pick("closed", "none")),
                        ("junk", .3, g.r.randint(1, 200)), ("argv", .1, True), ("interval", .1, 1e-6), ("recursion", .15, g.pick(600, 5000)),
                        ("number", .4, g.pick("np", "int")), ("readonly", .3, True), ("debug", .2, True), ("again", .2, g.r.randint(1, 3)),
                        ("umask", .1, True), ("optimize", .1, True)):
            if g.chance(p):
                w[k] = v
        return w

    def gen(self, g, tier):
        if g.chance(.75):
            whole = g.chance(.2)        # sizes and times that are whole numbers
            p = g.problem(nls=HARD, model_p=0 if whole else .1, tau=g.pick(1e4, 1e4, 30.0, 4.0) if whole else None)
            if g.chance(.1) and p["cls"] in ADAPTIVE and not p.get("model"):
                sliding(g, p)
            ops = []
            long = g.chance(.01)
            if long:
                p = g.problem(nls=["trig", "sat"], nmax=1, tame=True)
                if p["cls"] in ADAPTIVE:
                    p["config"] = dict(g.config(p["tau"]), incr_f=4.5, epsilon=1e-2)
                n = g.r.randint(300, 1500)
                ops = [{"op": "evolve", "t0": 0.0, "tf": 3 * p["tau"], "h": 3 * p["tau"] / n, "store": True, "freq": 1}]
            for _ in range(g.r.randint(1, 6) if not long else 0):
                k = g.r.random()
                if k < .3:
                    o = gen_evolve(g, p)
                elif k < .85:
                    o = gen_step(g, p)
                elif k < .92:
                    o = {"op": "reset", "start": g.pick(None, *STARTS)}
                else:
                    o = setting_ops(g, p) or {"op": "reset"}
                if o["op"] in ("step", "evolve") and g.chance(.2):
                    f = gen_fault(g, p, o)
                    if f["kind"] == "nl":
                        o["faults"] = [f]
                if whole:
                    for k in ("h", "h0", "t0", "tf"):
                        if o.get(k):
                            o[k] = float(round(o[k]) or (1 if k[0] == "h" else 0))
                    if o["op"] == "evolve":
                        o["tf"] = max(o["tf"], o["t0"] + max(1.0, o.get("h") or 0))
                ops.append(o)
            world = self.world(g)
            if whole and g.chance(.7):
                world["number"] = "int"
            return {"kind": "solver", "world": world, "p": p, "ops": ops, "long": long}
        ops = [{"op": g.pick(*C21.FNS), "n": g.pick(4, 6, 8, 16, 32), "seed": g.r.randint(0, 9999), "m": g.pick(0, 1, 2, 3), "bad": g.chance(.1)}
               for _ in range(g.r.randint(1, 7))]
        return {"kind": "functions", "world": self.world(g), "ops": ops}

    def simplify(self, s):
        for k in sorted(s["world"]):
            if k != "seed" and s["world"][k] is not None:
                yield dict(s, world={a: b for a, b in s["world"].items() if a != k} | ({"clock": None} if k == "clock" else {}))
        yield from super().simplify(s)

    # -- the other world --------------------------------------------------------
    def enter(self, run, w):
        """Only ever left by the end of the (forked) process."""
        random.seed(w["seed"])
        np.random.seed(w["seed"])
        if w["clock"]:
            CLOCK["f"] = Clock(run, w["clock"], w["seed"])
        if "filters" in w:
            warnings.resetwarnings()
            warnings.simplefilter(w["filters"])
            warnings.showwarning = lambda *a, **k: None
        if "gc" in w:
            gc.freeze()     # what is there already need not be looked at again and again
        if w.get("gc") == "off":
            gc.disable()
        elif w.get("gc") == "often":
            gc.set_threshold(1)
        if w.get("env") == "empty":
            os.environ.clear()
        elif w.get("env"):
            os.environ.update(DEBUG="1", VERBOSE="1", RKSTIFF_DEBUG="1", RKSTIFF_LOGLEVEL="DEBUG", CI="1", LANG="tr_TR.UTF-8", LC_ALL="de_DE",
                              OMP_NUM_THREADS="7", PYTHONOPTIMIZE="2", TZ="Asia/Kathmandu", HOME="/nonexistent", TMPDIR="/nonexistent", NO_COLOR="1",
                              RKSTIFF_CACHE="1", RKSTIFF_FAST="1", NUMPY_EXPERIMENTAL_ARRAY_FUNCTION="0")
        if w.get("cwd"):
            os.chdir("/")
        if "buffer" in w:
            np.setbufsize(w["buffer"])
        if "print" in w:
            np.set_printoptions(precision=w["print"], threshold=2, suppress=True)
        if "cpus" in w:
            os.cpu_count = lambda: w["cpus"]
        if w.get("pid"):
            pid = os.getpid()
            os.getpid = lambda: pid + 12345
        if "decimal" in w:
            decimal.getcontext().prec = w["decimal"]
        if w.get("stdout"):
            f = io.StringIO()
            f.close()
            sys.stdout = None if w["stdout"] == "none" else f
        if w.get("argv"):
            sys.argv = ["-c", "--fast", "--debug"]
        if "interval" in w:
            sys.setswitchinterval(w["interval"])
        if "recursion" in w:
            sys.setrecursionlimit(max(w["recursion"], w.get("depth", 0) + 400))
        if w.get("umask"):
            os.umask(0o777)
        if "junk" in w:
            r = random.Random("junk/%d" % w["junk"])
            self.junk = [bytearray(r.randint(1, 3000)) for _ in range(w["junk"])]
            del self.junk[::2]
        for k in w:
            run.env.fired["world-" + k] += k != "seed" and w[k] is not None

    @staticmethod
    def handling(w):
        if "err" in w:      # belongs to the thread
            np.seterrcall(lambda kind, flag: None)
            np.seterr(**w["err"])
            scipy.special.seterr(all="ignore")
        else:
            np.seterr(all="ignore")

    def inside(self, run, w, fn):
        """Make the calls in the other world, on the thread and at the stack depth it has."""
        box = {}

        def go():
            self.handling(w)
            try:
                box["v"] = deep(w.get("depth", 0), fn)
            except BaseException as e:  # noqa: BLE001
                box["e"] = e
        if "thread" in w:
            if w["thread"]:
                threading.stack_size(w["thread"] * 4)
            t = threading.Thread(target=go)
            t.start()
            t.join()
        else:
            go()
        if "e" in box:
            raise box["e"]
        return box["v"]

    @staticmethod
    def number(w, x):
        how = w.get("number")
        if x is None or how is None:
            return x
        if how == "np":
            return np.float64(x)
        if how == "int" and float(x).is_integer() and abs(x) < 2 ** 53:
            return int(x)
        return x

    def execute(self, run):
        getattr(self, run.scen["kind"])(run, run.scen, run.scen["world"])

    def solver(self, run, s, w):
        p = s["p"]
        lim = 12000 if s.get("long") else 1500

        def calls(cid, world):
            hook = (lambda k, u: gc.collect()) if world and world.get("gc") == "inside" else None
            C = Client(run, p, cid, hook=hook, loglevel="DEBUG" if world and world.get("debug") else None)
            if world and world.get("readonly"):
                C.u0 = C.u0.copy()
                C.u0.flags.writeable = False
                C.u = C.u0
            outs = []
            for o in s["ops"]:
                if world:
                    o = dict(o)
                    for k in ("h", "h0", "t0", "tf"):
                        if k in o:
                            o[k] = self.number(world, o[k])
                outs.append(C.do(o, limit=lim))
                outs[-1].pop("exception", None)
            return outs
        np.seterr(all="ignore")
        A = calls("a", None)
        self.enter(run, w)
        n = w.get("again", 1)
        for j in range(n):
            B = self.inside(run, w, lambda: calls("b%d" % j, w))
            for i, (a, b, o) in enumerate(zip(A, B, s["ops"])):
                what = "op %d (%s) in the other world" % (i, o["op"])
                if o["op"] == "evolve":
                    same_evolve(run, a, b, "world", what)
                else:
                    same_step(run, a, b, "world", what)
                run.nontrivial |= a["kind"] == "ok" and "u" in a
        CLOCK["f"] = None

    def functions(self, run, s, w):
        def calls():
            T = [transforms.HankelTransform(6, 2.0)]
            outs = []
            for o in s["ops"]:
                try:
                    v = C21.thunk(None, o, T)()
                    v = [np.asarray(x) for x in (v if isinstance(v, tuple) else (v,)) if isinstance(x, (np.ndarray, float, complex))]
                    outs.append(("ok", v))
                except (ValueError, TypeError, IndexError, AssertionError, np.linalg.LinAlgError, boot.SolverError, ZeroDivisionError) as e:
                    outs.append((type(e).__name__, str(e)))
            return outs
        np.seterr(all="ignore")
        A = calls()
        self.enter(run, w)
        B = self.inside(run, w, calls)
        CLOCK["f"] = None
        for i, ((ka, a), (kb, b), o) in enumerate(zip(A, B, s["ops"])):
            what = "op %d (%s)" % (i, o["op"])
            run.check(ka == kb, "world", lambda: "%s: %s in the other world, %s here" % (what, kb, ka))
            run.log(o["op"], ka)
            if ka != "ok":
                run.check(a == b, "world", lambda: "%s: refused with '%s' in the other world, '%s' here" % (what, b, a))
                continue
            run.check(len(a) == len(b), "world", lambda: "%s: %d results in the other world, %d here" % (what, len(b), len(a)))
            for x, y in zip(a, b):
                run.log(x)
                e = relerr(x, y)
                run.check(e <= 1e-11, "world", lambda: "%s: results differ by %.3g" % (what, e))
            run.nontrivial = True
            run.real[o["op"]] += 1
