"""C17, C18: failures reach the caller; copies and restored snapshots."""
import copy
import math
import pickle
import random

import numpy as np

from base import Prop
from boot import ADAPTIVE, ETDConfig, SolverConfig, derivatives, grids, models, transforms
from core import HARD, setting_ops
from env import EXC, LineTrace, count_points
from misc import settings_of
from problems import make_solver, relerr
from simlib import BAD, Client, STARTS, add_faults, brief, cp, gen_evolve, gen_step, same_evolve, same_step

WHATS = ("fault", "kbd", "mem", "exit", "stop", "fpe", "arith", "os", "val", "linalg", "minstep", "minstep", "loops", "solver", "assert",
         "type", "warn", "index", "over", "timeout", "attr", "recur", "iter", "key", "eof", "todo", "gen", "conn", "runtime", "system", "buffer", "uni", "user", "group", "name",
         "perm", "cancel", "acancel")
LINEWHATS = ("kbd", "kbd", "mem", "mem", "exit", "stop", "fpe", "linalg", "val", "timeout")


class C17(Prop):
    id = "C17"
    quick, thorough = 6000, 40000 * 4
    rule = ("one run = up to 6 calls on a solver, a transform, or grid, derivative and model functions, most of them struck by one "
            "exception of nearly 40 kinds raised in the nonlinear function, in a numerical kernel or at an interrupt point; non-trivial when "
            "at least one was raised")
    real = "all package code, NumPy and SciPy"

    FNS = ("x_kx_rfft", "x_kx_fft", "x_cheb", "x_dx_cheb", "r_kr", "mirror", "dx_rfft", "dx_fft", "dx_cheb", "kdv", "burgers",
           "allen_cahn", "soliton", "multi", "config", "etd")

    def gen(self, g, tier):
        k = g.r.random()
        if k < .62:
            p = g.problem(nls=HARD, model_p=.1)
            ops = []
            for _ in range(g.r.randint(1, 6)):
                o = gen_evolve(g, p) if g.chance(.35) else gen_step(g, p)
                add_faults(g, p, o, .8, raising=True)
                for f in o.get("faults") or []:
                    if f["kind"] == "nl":
                        f["what"] = g.pick(*WHATS)
                    elif f["kind"] == "line":
                        f["what"] = g.pick(*LINEWHATS) if f["what"] != "mem" else "mem"
                    elif f["kind"] == "kernel":
                        f["what"] = g.pick(*LINEWHATS)
                o["faults"] = [f for f in o.get("faults") or [] if f["kind"] != "fp"]
                ops.append(o)
            return {"kind": "solver", "p": p, "ops": ops, "level": g.pick(None, None, "DEBUG", "ERROR")}
        if k < .72:
            p = g.problem(model_p=.1)
            return {"kind": "make", "p": p, "ops": [self.strike(g, {}) for _ in range(g.r.randint(1, 3))]}
        if k < .84:
            ops = []
            for _ in range(g.r.randint(1, 6)):
                o = {"op": g.pick("new", "nr", "nr", "rmax", "rmax", "ht", "iht", "matrix", "zeros")}
                o["v"] = g.r.randint(4, 14) if o["op"] in ("nr", "new") else g.logu(-1, 1)
                ops.append(self.strike(g, o))
            return {"kind": "hankel", "ops": ops}
        ops = [self.strike(g, {"op": g.pick(*self.FNS), "n": g.pick(4, 6, 8, 16), "seed": g.r.randint(0, 9999), "m": g.pick(1, 2, 3),
                               "dim2": g.chance(.3)}) for _ in range(g.r.randint(1, 6))]
        return {"kind": "fn", "ops": ops}

    def strike(self, g, o):
        if g.chance(.85):
            o["frac"] = round(g.r.random(), 4)
            o["what"] = g.pick(*LINEWHATS)
        return o

    def execute(self, run):
        s = run.scen
        self.n = 0
        if s["kind"] == "solver":
            self.solver(run, s)
        elif s["kind"] == "make":
            p = s["p"]
            for i, o in enumerate(s["ops"]):
                self.struck(run, o, lambda: make_solver(p, np.sin), "making %s/%s" % (p["cls"], p["form"]))
        elif s["kind"] == "hankel":
            self.hankel(run, s)
        else:
            for i, o in enumerate(s["ops"]):
                self.struck(run, o, self.thunk(o), o["op"])
        run.nontrivial = self.n > 0

    def solver(self, run, s):
        p = s["p"]
        A = Client(run, p, "a", loglevel=s.get("level"))
        env = run.env
        at = [None]

        def throw(what, msg, orig=env.throw):
            at[0] = env.calls["a"]
            orig(what, msg)
        env.throw = throw
        for i, o in enumerate(s["ops"]):
            env.raised = None
            a = A.do(o)
            e = env.raised
            if e is None:
                run.probe["did not strike"] += 1
                continue
            self.n += 1
            run.probe["raised " + type(e).__name__] += 1
            what = "op %d (%s), %s from %s" % (i, o["op"], type(e).__name__, o["faults"][0]["kind"])
            run.check(a["kind"] == "err", "swallowed", lambda: "%s: the call returned as if nothing had happened" % what)
            run.check(a["exception"] is e, "replaced", lambda: "%s: the caller got %s instead" % (what, brief(a)))
            if at[0] is not None and o["faults"][0]["kind"] != "line":
                run.check(env.calls["a"] - at[0] <= (1 if o["faults"][0]["kind"] == "nl" else 0), "went-on",
                          lambda: "%s: the nonlinear function was called %d times after it" % (what, env.calls["a"] - at[0]))
            A.do({"op": "reset"})
        run.log("ops", len(s["ops"]), self.n)

    def struck(self, run, o, fn, what):
        """fn() with one exception at a chosen interrupt point must raise that exception."""
        if "what" not in o:
            fn()
            return
        n = count_points(fn, o["what"] == "mem")
        tr = LineTrace(run.env, 1 + int(o["frac"] * n), EXC[o["what"]], o["what"])
        run.env.raised = got = None
        try:
            tr.start()
            try:
                fn()
            finally:
                tr.stop()
        except BaseException as e:  # noqa: BLE001
            if run.env.raised is None:
                raise
            got = e
        e = run.env.raised
        if e is None:
            run.probe["did not strike"] += 1
            return
        self.n += 1
        run.log(what, tr.where, type(e).__name__)
        run.probe["raised " + type(e).__name__] += 1
        run.check(got is not None, "swallowed", lambda: "%s: %s at %s did not reach the caller" % (what, type(e).__name__, tr.where))
        run.check(got is e, "replaced", lambda: "%s: %s at %s reached the caller as %s(%s)" % (what, type(e).__name__, tr.where, type(got).__name__, got))
        run.real[what.split("/")[0]] += 1

    def hankel(self, run, s):
        T = transforms.HankelTransform(6, 2.0)
        for o in s["ops"]:
            if o["op"] == "new":
                fn = lambda: transforms.HankelTransform(o["v"], 2.0)  # noqa: E731
            elif o["op"] in ("nr", "rmax"):
                # the call is made twice, the first time only to count its interrupt points
                vs = [o["v"], o["v"] + 1]
                fn = lambda: setattr(T, o["op"], vs.pop() if len(vs) > 1 else vs[0])  # noqa: E731
            elif o["op"] in ("ht", "iht"):
                fn = lambda: getattr(T, o["op"])(np.cos(np.arange(T.nr)))  # noqa: E731
            else:
                fn = T.hankel_matrix if o["op"] == "matrix" else T.bessel_zeros
            self.struck(run, o, fn, "HankelTransform " + o["op"])

    def thunk(self, o):
        r = random.Random(o["seed"])
        n, k, m = o["n"], o["op"], o["m"]
        v = np.array([r.uniform(-1, 1) for _ in range(n)])
        if k == "x_kx_rfft":
            return lambda: grids.construct_x_kx_rfft(n, -1.0, 2.0)
        if k == "x_kx_fft":
            return lambda: grids.construct_x_kx_fft(n, -1.0, 2.0)
        if k == "x_cheb":
            return lambda: grids.construct_x_cheb(n, -1.0, 2.0)
        if k == "x_dx_cheb":
            return lambda: grids.construct_x_dx_cheb(n, -1.0, 2.0)
        if k == "r_kr":
            return lambda: grids.construct_r_kr_hankel(n, 2.0)
        if k == "mirror":
            return lambda: grids.mirror_grid(np.abs(v) + .1, v)
        if k == "dx_rfft":
            kx = grids.construct_x_kx_rfft(n)[1]
            return lambda: derivatives.dx_rfft(kx, v, m)
        if k == "dx_fft":
            kx = grids.construct_x_kx_fft(n)[1]
            return lambda: derivatives.dx_fft(kx, v + 1j * v[::-1], m)
        if k in ("dx_cheb", "allen_cahn"):
            x, D = grids.construct_x_dx_cheb(n)
            w = np.cos(x)
            if k == "dx_cheb":
                u = np.outer(w, [1.0, 2.0]) if o["dim2"] else w
                return lambda: derivatives.dx_cheb(D, u, m)
            f = models.allen_cahn_ops(x, D)[1]
            return (lambda: f(w[1:-1])) if m == 1 else (lambda: models.allen_cahn_ops(x, D))
        if k in ("kdv", "burgers"):
            kx = grids.construct_x_kx_rfft(n)[1]
            make = (lambda: models.kdv_ops(kx)) if k == "kdv" else (lambda: models.burgers_ops(kx, .1))
            f, uf = make()[1], np.fft.rfft(v)
            return (lambda: f(uf)) if m == 1 else make
        if k == "soliton":
            return lambda: models.kdv_soliton(v, .7, .1, .2)
        if k == "multi":
            return lambda: models.kdv_multi_soliton(v, [.7, .4], [.1, -.3], .2)
        if k == "config":
            def f():
                c = SolverConfig(epsilon=1e-3)
                c.minh = 1e-9
                c.decr_f = .7
            return f

        def f():
            c = ETDConfig(contour_points=8)
            c.contour_radius = 2.0
            c.modecutoff = .02
        return f


# --------------------------------------------------------------------------
class Portable:
    """A nonlinear function that can be copied and pickled: what comes back is bound by `MAKE`."""

    MAKE = [None]

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, u):
        return self.fn(u)

    def __reduce__(self):
        return _rebind, ()


def _rebind():
    return Portable.MAKE[0]()


class C18(Prop):
    id = "C18"
    quick, thorough = 4800, 30000 * 4
    rule = ("one run = a history of calls on a solver with faults, a snapshot (deep copy or pickle) taken of it at a random moment and "
            "restored, then original and copy driven on, interleaved, each compared with a solver that made the same calls and was "
            "never copied; non-trivial when both completed a step after the snapshot")

    def gen(self, g, tier):
        if g.chance(.15):
            ops = []
            for _ in range(g.r.randint(1, 8)):
                ops.append({"op": g.pick("nr", "rmax", "snap", "pick"), "nr": g.r.randint(4, 14), "rmax": g.logu(-1, 1),
                            "how": g.pick("deep", 2, 4, 5), "i": g.r.randint(0, 5)})
            return {"kind": "hankel", "ops": ops}
        p = g.problem(nls=HARD, model_p=0)

        def some(n, evolve=.25):
            out = []
            for _ in range(n):
                k = g.r.random()
                if k < evolve:
                    o = gen_evolve(g, p)
                    o["u"] = g.pick("u0", "cur")
                    add_faults(g, p, o, .2)
                elif k < .85:
                    o = gen_step(g, p)
                    if g.chance(.04):
                        o["bad"] = g.pick(*BAD)
                    else:
                        add_faults(g, p, o, .2)
                elif k < .9:
                    o = {"op": "reset", "start": g.pick(None, *STARTS), "of": g.pick("last", "begun")}
                else:
                    o = setting_ops(g, p) or gen_step(g, p)
                out.append(o)
            return out
        pre = some(g.r.randint(1, 5))
        for i in range(len(pre), -1, -1):
            if g.chance(.08):
                pre.insert(i, {"op": "thaw", "how": g.pick("deep", 2, 4, 5)})
        a, b = some(g.r.randint(1, 4), .15), some(g.r.randint(1, 4), .15)
        if g.chance(.5):
            b = cp(a)
        order = [0] * len(a) + [1] * len(b)
        g.r.shuffle(order)
        return {"kind": "solver", "p": p, "pre": pre, "how": g.pick("deep", "deep", 2, 4, 5), "ops": a, "copy": b, "order": order}

    @staticmethod
    def snap(x, how):
        return copy.deepcopy(x) if how == "deep" else pickle.loads(pickle.dumps(x, how))

    def restore(self, run, A, how, cid):
        """A client whose solver is a snapshot of A's."""
        C = copy.copy(A)
        C.cid = cid
        C.nl = Portable(run.env.wrap(C.pure, cid))
        C.used = list(A.used)
        Portable.MAKE[0] = lambda: C.nl
        try:
            C.solver = self.snap(A.solver, how)
        except Exception as e:  # noqa: BLE001
            run.check(False, "snapshot", "%s/%s cannot be saved (%s): %r" % (A.p["cls"], A.p["form"], how, e))
        return C

    def execute(self, run):
        if run.scen["kind"] == "hankel":
            return self.hankel(run)
        s, p = run.scen, run.scen["p"]

        def new(cid):
            return Client(run, p, cid, portable=Portable)
        A = new("a")
        for i, o in enumerate(s["pre"]):
            if o["op"] == "thaw":
                A = self.restore(run, A, o["how"], "a%d" % i)
            else:
                self.settle(A, A.do(o))
        C = self.restore(run, A, s["how"], "c")
        run.check(len(C.solver.t) == len(A.solver.t) and all(relerr(x, y) == 0 for x, y in zip(C.solver.u, A.solver.u))
                  and list(C.solver.t) == list(A.solver.t), "history", "the snapshot's stored history is not the original's")
        run.check(settings_of(C.solver) == settings_of(A.solver), "settings", "the snapshot's settings are not the original's")
        got = [[], []]
        todo = [list(s["ops"]), list(s["copy"])]
        order = [i for i in s["order"]] + [0] * len(s["ops"]) + [1] * len(s["copy"])
        for i in order:
            if todo[i]:
                X, Y = (A, C)[i], (C, A)[i]
                before = list(Y.solver.t), [np.array(x) for x in Y.solver.u]
                out = X.do(todo[i].pop(0))
                got[i].append(out)
                self.settle(X, out)
                run.check(list(Y.solver.t) == before[0] and len(Y.solver.u) == len(before[1])
                          and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(Y.solver.u, before[1])), "history",
                          lambda: "a call on the %s changed the history stored by the %s" % (("original", "copy")[i], ("copy", "original")[i]))
        cfg = [settings_of(A.solver), settings_of(C.solver)]
        n = [0, 0]
        for i in (0, 1):
            R = new("r%d" % i)
            for o in s["pre"]:
                if o["op"] != "thaw":
                    self.settle(R, R.do(o))
            for j, o in enumerate((s["ops"], s["copy"])[i]):
                r = R.do(o)
                self.settle(R, r)
                what = "%s (%s), op %d" % (("original", "copy")[i], s["how"], j)
                a = got[i][j]
                if o["op"] == "evolve":
                    same_evolve(run, a, r, "diverges", what, rtol=1e-9)
                else:
                    same_step(run, a, r, "diverges", what, rtol=1e-9)
                n[i] += a["kind"] == "ok" and "u" in a
            run.check(cfg[i] == settings_of(R.solver), "settings", lambda: "%s: settings %s, without the copy %s" % (
                ("original", "copy")[i], cfg[i], settings_of(R.solver)))
        run.nontrivial = min(n) > 0

    @staticmethod
    def settle(X, out):
        """After a failure the caller starts again (what a failed call leaves is C03's business)."""
        if out["kind"] != "ok" or ("u" in out and not np.all(np.isfinite(out["u"]))):
            X.solver.reset()
            X.u, X.h = X.u0, None

    def hankel(self, run):
        H = transforms.HankelTransform
        objs, model = [H(6, 2.0)], [(6, 2.0)]
        cur = 0
        for o in run.scen["ops"]:
            if o["op"] == "snap":
                objs.append(self.snap(objs[cur], o["how"]))
                model.append(model[cur])
                run.probe["transform snapshots"] += 1
            elif o["op"] == "pick":
                cur = o["i"] % len(objs)
            elif o["op"] == "nr":
                objs[cur].nr = o["nr"]
                model[cur] = (o["nr"], model[cur][1])
            else:
                objs[cur].rmax = o["rmax"]
                model[cur] = (model[cur][0], o["rmax"])
            for i, T in enumerate(objs):
                F = H(*model[i])
                x = np.cos(np.arange(model[i][0]))
                run.check((T.nr, T.rmax) == model[i], "diverges", lambda: "transform %d reports %s, last set %s" % (i, (T.nr, T.rmax), model[i]))
                for nm, a, b in (("r", T.r, F.r), ("kr", T.kr, F.kr), ("matrix", T.hankel_matrix(), F.hankel_matrix()),
                                 ("ht", T.ht(x), F.ht(x)), ("iht", T.iht(x), F.iht(x))):
                    run.check(relerr(a, b) <= 1e-12, "diverges", lambda: "transform %d: %s is not that of a new transform" % (i, nm))
            run.log(o["op"], cur)
        run.nontrivial = len(objs) > 1
