"""Running operations on real solvers and comparing outcomes."""
import collections
import copy
import math

import numpy as np

from boot import ADAPTIVE, STAGES, SolverError, SolverConfig
from env import Env, SimBudget, count_points
from problems import (Gen, Digest, make_solver, pure_nl, u_init, lin_op, finite, relerr)

T_RTOL, U_RTOL = 1e-10, 1e-8


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls, self.msg = cls, msg


class Run:
    """Book-keeping of one scenario execution."""

    def __init__(self, scen, budget=60000):
        self.scen = scen
        self.env = Env(budget)
        self.dig = Digest()
        self.probe = collections.Counter()   # "this rare condition was hit"
        self.simtime = 0.0
        self.evals = 0                       # oracle comparisons made
        self.key = None                      # what makes this run distinct
        self.nontrivial = False
        self.real = collections.Counter()    # real components driven

    def log(self, *xs):
        self.dig.add(*xs)

    def check(self, ok, cls, msg):
        self.evals += 1
        if not ok:
            raise Violation(cls, msg() if callable(msg) else msg)


def exc_name(e):
    return type(e).__name__


def relative_state(u, u0, how):
    """The state a caller starts from next: the initial one, or a relative of the last one, such as
    something remembered about a state (its norm, real part, identity) could mistake for it."""
    if how is None or not finite(u):
        return u0
    u = np.array(u)
    if how == "copy":
        return u
    if how == "neg":
        return -u
    if how == "perm":
        return np.roll(u, 1)
    if how == "near":
        return u * (1 + 1e-9)
    if how == "one":            # one component differs
        u[-1] = u[-1] * 1.01 + .01
        return u
    if np.iscomplexobj(u0):
        if how == "conj":
            return np.conj(u)
        if how == "imag":       # same real part
            return u + .1j
        if how == "phase":      # same magnitudes
            return u * 1j
    return u0


STARTS = ("copy", "neg", "perm", "near", "one", "conj", "imag", "phase")


def spoil(u, h, how):
    """Arguments no step can be made with."""
    if how == "neg":
        return u, -h
    if how == "nan":
        return u, float("nan")
    if how == "shape":
        return (np.concatenate([u, u[:1]]) if u.size > 1 else None), h
    if how == "none":
        return None, h
    return u, h


class Client:
    """One solver with its environment, driven operation by operation."""

    def __init__(self, run, p, cid="s", config=None, etd=None, hook=None, pure=None, lin=None, u0=None,
                 loglevel=None, portable=None):
        self.run, self.p, self.cid = run, p, cid
        self.pure = pure or pure_nl(p)
        self.nl = run.env.wrap(self.pure, cid, hook)
        if portable:
            self.nl = portable(self.nl)
        self.config, self.etd = config, etd
        self.solver = make_solver(p, self.nl, config=config, etd=etd, lin=lin, loglevel=loglevel)
        self.u0 = u_init(p) if u0 is None else u0
        self.adaptive = p["cls"] in ADAPTIVE
        self.u = self.u0
        self.h = None
        self.begun = None        # the state the solver last started from
        self.used = []           # sizes of completed steps
        run.real[p["cls"] + "/" + p["form"]] += 1

    def size(self, op):
        """The step size an op asks for: absolute, relative to an earlier one, or as suggested."""
        if op.get("h") is not None:
            return op["h"]
        if op.get("back") and self.used:
            return self.used[-min(op["back"], len(self.used))] * op.get("rel", 1.0)
        return self.h if self.h else op["h0"]

    def do(self, op, faults=None, limit=1500):
        """Returns an outcome dict; never raises for anything the solver raised."""
        s, kind = self.solver, op["op"]
        out = {"op": kind, "cid": self.cid}
        with self.run.env.op(op.get("faults") if faults is None else faults, self.cid, limit):
            try:
                if kind == "step":
                    u = self.u if op.get("u", "cur") == "cur" else self.u0
                    h = self.size(op)
                    if self.begun is None:
                        self.begun = u
                    u, h = spoil(u, h, op.get("bad"))
                    out["h_in"], out["u_in"] = h, u
                    if self.adaptive:
                        un, hu, hs = s.step(u, h)
                        out.update(kind="ok", u=un, h=float(hu), hs=float(hs))
                        self.u, self.h = un, float(hs)
                    else:
                        un = s.step(u, h)
                        out.update(kind="ok", u=un, h=h, hs=h)
                        self.u, self.h = un, h
                    self.used.append(out["h"])
                    self.run.simtime += abs(out["h"]) / self.p["tau"]
                elif kind == "evolve":
                    kw = {"store_data": op.get("store", True), "store_freq": op.get("freq", 1)}
                    u = self.begun = self.u0 if op.get("u", "u0") == "u0" else self.u
                    if self.adaptive:
                        r = s.evolve(u, op["t0"], op["tf"], op.get("h"), **kw)
                    else:
                        r = s.evolve(u, op["t0"], op["tf"], op["h"], **kw)
                    out.update(kind="ok", u=r)
                    self.u = r
                    self.run.simtime += abs(op["tf"] - op["t0"]) / self.p["tau"]
                elif kind == "reset":
                    s.reset()
                    out.update(kind="ok")
                    of = self.u if op.get("of") != "begun" or self.begun is None or self.begun.shape != self.u0.shape else self.begun
                    self.u, self.h, self.begun = relative_state(of, self.u0, op.get("start")), None, None
                elif kind == "set":
                    setattr(getattr(s, op["obj"]), op["name"], op["value"])
                    out.update(kind="ok")
                elif kind == "newconfig":
                    s.config = SolverConfig(**op["config"])
                    out.update(kind="ok")
                elif kind == "loglevel":
                    s.set_loglevel(op["level"])
                    out.update(kind="ok")
                else:
                    raise RuntimeError("op " + kind)
            except SimBudget as e:
                out.update(kind="err", exc="SimBudget", e=str(e))
            except (Violation, RecursionError) as e:
                if e is not self.run.env.raised:
                    raise
                out.update(kind="err", exc=exc_name(e), e=str(e), own=False, exception=e)
            except BaseException as e:  # noqa: BLE001
                out.update(kind="err", exc=exc_name(e), e=str(e), own=isinstance(e, SolverError), exception=e)
        if kind == "evolve":
            out["t"], out["us"] = list(s.t), list(s.u)
        self.run.log(self.cid, kind, out["kind"], out.get("exc"), out.get("h"), out.get("hs"))
        if out.get("u") is not None:
            self.run.log(np.asarray(out["u"]))
        if kind == "evolve":
            self.run.log(len(out["t"]), *out["t"])
        return out


def d(x):
    return "%.17g" % x if isinstance(x, float) else repr(x)


def same_step(run, a, b, cls, what, rtol=U_RTOL, trtol=T_RTOL, hcheck=True):
    """Both outcomes of a step-like op must agree."""
    run.check(a["kind"] == b["kind"] and a.get("exc") == b.get("exc"), cls,
              lambda: "%s: outcome %s, expected %s" % (what, brief(a), brief(b)))
    if a["kind"] != "ok" or "u" not in a:
        return
    if hcheck and "h" in a:
        for k in ("h", "hs"):
            run.check(abs(a[k] - b[k]) <= trtol * max(abs(a[k]), abs(b[k])), cls,
                      lambda k=k: "%s: %s=%s, expected %s" % (what, k, d(a[k]), d(b[k])))
    e = relerr(a["u"], b["u"])
    run.check(e <= rtol, cls, lambda: "%s: states differ by %.3g (relative)" % (what, e))


def same_hist(run, a, b, cls, what, prefix=False, rtol=U_RTOL):
    ta, tb = a["t"], b["t"]
    ua, ub = a["us"], b["us"]
    n = min(len(ta), len(ua), len(tb), len(ub))  # an interrupt may come between storing a time and its state
    if not prefix:
        run.check(len(ta) == len(tb) and len(ua) == len(ub), cls,
                  lambda: "%s: %d times / %d states stored, expected %d / %d" % (what, len(ta), len(ua), len(tb), len(ub)))
    for i in range(n):
        run.check(teq(ta[i], tb[i], tb), cls, lambda: "%s: t[%d]=%s, expected %s" % (what, i, d(ta[i]), d(tb[i])))
        e = relerr(ua[i], ub[i])
        run.check(e <= rtol, cls, lambda: "%s: stored state %d differs by %.3g" % (what, i, e))


def teq(x, y, ts):
    s = max(abs(float(ts[0])), abs(float(ts[-1])), abs(float(ts[-1]) - float(ts[0]))) if len(ts) else 0
    return abs(x - y) <= T_RTOL * max(s, 1e-300)


def same_evolve(run, a, b, cls, what, rtol=U_RTOL):
    run.check(a["kind"] == b["kind"] and a.get("exc") == b.get("exc"), cls,
              lambda: "%s: outcome %s, expected %s" % (what, brief(a), brief(b)))
    if a["kind"] == "ok":
        e = relerr(a["u"], b["u"])
        run.check(e <= rtol, cls, lambda: "%s: returned states differ by %.3g" % (what, e))
    same_hist(run, a, b, cls, what, rtol=rtol)


def brief(o):
    if o["kind"] == "ok":
        return "ok"
    return "%s(%s)" % (o.get("exc"), (o.get("e") or "")[:80])


# --------------------------------------------------------------------------
# generation of operations and faults
# --------------------------------------------------------------------------
def gen_evolve(g, p, short=True, freq=True):
    tau = p["tau"]
    span = tau * g.logu(-1.3, 0.3 if short else 0.8)
    t0 = g.pick(0.0, 0.0, -span, -0.37 * span, 2.5 * tau, -3.1 * tau)
    op = {"op": "evolve", "t0": t0, "tf": t0 + span}
    if p["cls"] in ADAPTIVE:
        op["h"] = g.pick(None, span * g.logu(-2.5, 0.3))
    else:
        n = g.r.randint(1, 24)
        op["h"] = span / n * g.pick(1.0, 1.0, 1.0 - 0.3 / n)
    if freq:
        op["freq"] = g.pick(1, 1, 2, 3, 7, 50)
        op["store"] = g.chance(.85)
    return op


def gen_step(g, p, lo=-2.3, hi=-0.3, near=True):
    """A step: of the size last suggested, of (nearly) a size used before, or of a new size."""
    o = {"op": "step", "h": None, "h0": p["tau"] * round(g.logu(-2, -.7), 6)}
    k = g.r.random()
    if k < .3:
        return o
    if near and k < .7:
        o["back"] = g.pick(1, 1, 1, 2, 2, 3, 4)
        o["rel"] = g.pick(1.0, 1.0, 1.0, 0.5, 2.0, 1 + 1e-12, 1 + 1e-6, 1 - 3e-4, 1 + 2e-9, 1.001, 1 - 1e-7,
                          1 + g.r.choice([-1, 1]) * g.logu(-12, -2), 0.9, 1.2)
        return o
    o["h"] = g.h(p, lo, hi)
    return o


NLW = ["fault", "fault", "kbd", "mem", "fpe", "nan", "inf", "nan1", "inf1", "huge", "big", "os", "none", "shape"]
RAISING = ("fault", "kbd", "mem", "fpe", "os", "val", "arith", "none", "shape")
BAD = ("neg", "nan", "shape", "none")     # arguments a step refuses


def gen_fault(g, p, op, raising=None):
    """One fault aimed inside an operation.  raising=True: only faults that raise."""
    st = STAGES[p["cls"]]
    k = g.r.random()
    steps = 1 if op["op"] != "evolve" else g.pick(1, 3, 10)
    if k < .45:
        w = g.pick(*(RAISING if raising else NLW))
        f = {"kind": "nl", "at": g.r.randint(0, st * steps), "len": 1 if w in RAISING else g.pick(1, 1, 2, 5, 40, 400),
             "what": w}
        if w in ("nan1", "inf1"):
            f["i"] = g.r.randint(0, 5)
        return f
    if k < .85:
        f = {"kind": "line", "frac": round(g.r.random(), 4), "n": None, "what": g.pick("kbd", "kbd", "mem", "exit")}
        return f
    if k < .95:
        return {"kind": "kernel", "name": g.pick("exp", "exp", "norm") if p["form"] != "full" else g.pick("expm", "expm", "inv", "norm"),
                "at": g.r.randint(1, 6), "what": g.pick("mem", "linalg", "kbd", "fpe")}
    return {"kind": "fp", "traps": g.pick(["over"], ["invalid"], ["under"], ["over", "invalid", "divide"])}





_LINES = {}
_CANON = {"n": 2, "tau": 1.0, "ldtype": "complex", "lam": [[-0.1, 0.2], [-0.2, -0.1]], "mat": None,
          "nl": {"kind": "poly", "a": 0.5, "b": 0.3}, "u0": [[0.5, 0.1], [0.3, -0.2]], "udtype": "complex",
          "config": {"epsilon": 1e-2}}


def est_points(p, op, alloc):
    """Interrupt points an undisturbed execution of `op` on a fresh solver runs (for aiming)."""
    if op["op"] == "step":
        # a pure function of class, form and contour size, so generation stays reproducible
        pts = (p.get("etd") or {}).get("contour_points", 32)
        key = (p["cls"], p["form"], pts, alloc)
        if key not in _LINES:
            q = dict(_CANON, cls=p["cls"], form=p["form"], etd={"contour_points": pts, "contour_radius": 2.0})
            c = Client(Run(None), q)
            _LINES[key] = count_points(lambda: c.do({"op": "step", "h": 0.01}, faults=[], limit=300), alloc)
        return int(1.3 * _LINES[key])
    c = Client(Run(None), p)
    o = {k: v for k, v in op.items() if k not in ("faults", "u")}
    return count_points(lambda: c.do(o, faults=[], limit=300), alloc)


def aim(p, op):
    """Turn fractions into absolute point numbers.  Pure function of (p, op)."""
    for f in op.get("faults") or []:
        if f["kind"] == "line" and f.get("n") is None:
            f["n"] = 1 + int(f["frac"] * max(1, est_points(p, op, f["what"] == "mem")))
    return op


def add_faults(g, p, op, prob, raising=None):
    if g.chance(prob):
        op["faults"] = [gen_fault(g, p, op, raising)]
        aim(p, op)
    return op


def cp(x):
    return copy.deepcopy(x)
