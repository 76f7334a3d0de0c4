"""C20: the drivers under a scheme of the user's own, whose every answer the scenario decides."""
import math

import numpy as np

from base import Prop
from boot import BaseSolverAS, BaseSolverCS, SolverConfig
from env import EXC
from problems import finite
from simlib import d, exc_name

BUDGET = 700        # attempts per operation
EPS = 2.3e-16
NAMES = ("epsilon", "incr_f", "decr_f", "safety_f", "adapt_cutoff", "minh")


class _Enough(BaseException):
    """The scheme's own way of ending an endless operation."""


class Attempt:
    __slots__ = ("u", "h", "flag", "resets", "s", "new", "exc", "cfg")


class Script:
    """The scheme's side: answers every attempt as the scenario says and records what it was asked."""

    def __init__(self, run, scen):
        self.run, self.ev, self.q = run, scen["script"] or [{"s": 1.1}], scen["q"]
        self.n, self.cplx = scen["n"], scen["cplx"]
        self.rng = np.random.default_rng(scen["seed"])
        self.k = self.resets = 0
        self.log = []
        self.cfg = dict(scen["config"] or {})

    def vector(self, size=1.0):
        v = self.rng.uniform(.6, 1, self.n) * self.rng.choice([-1.0, 1.0], self.n)
        if self.cplx:
            v = v * np.exp(1j * self.rng.uniform(0, 6.28, self.n))
        return v * size

    def answer(self, solver, u, h, adaptive):
        a = Attempt()
        a.u, a.h, a.resets, a.new, a.exc, a.s = np.array(u), float(h), self.resets, None, None, None
        a.flag = bool(solver._accept) if adaptive else None
        self.resets = 0
        self.log.append(a)
        if len(self.log) > BUDGET:
            a.exc = _Enough()
            raise a.exc
        e = self.ev[self.k % len(self.ev)]
        self.k += 1
        w = e.get("w")
        if w == "raise":
            self.run.env.fired["hook-" + e["exc"]] += 1
            a.exc = EXC[e["exc"]]("raised by the scheme")
            raise a.exc
        if not adaptive:
            a.new = self.vector()
            if w == "nan":
                a.new[0] = np.nan
            return a.new
        a.cfg = dict(self.cfg)
        a.new = self.vector(e.get("size", 1.0))
        big = np.ones(self.n, bool)
        if a.cfg["adapt_cutoff"] > 0 and self.n > 1 and e.get("small"):
            big[1:] = self.rng.random(self.n - 1) < .5
            a.new[~big] *= .5 * a.cfg["adapt_cutoff"]
        if w in ("zerou", "both"):
            a.new = a.new * 0
        err = self.vector()
        s = e.get("s", 1.1)
        a.s = s
        err[big] *= a.cfg["epsilon"] * np.linalg.norm(a.new[big]) * (a.cfg["safety_f"] / s) ** self.q / np.linalg.norm(err[big])
        err[~big] = e.get("smallerr", 1e3)
        if w in ("zero", "both"):
            err[big | (w == "both")] = 0.0
            a.s = self.lim["MAX_S"]
        elif w == "zerou":
            err[:] = 1e-9
            a.s = 0.0
        elif w == "nan":
            err[0] = np.nan
            a.s = math.nan
        elif w == "inf":
            err[0] = np.inf
            a.s = 0.0
        elif w in ("unan", "uinf"):
            a.new[self.n - 1] = np.nan if w == "unan" else -np.inf
            a.s = math.nan
        if w:
            self.run.env.fired["hook-" + w] += 1
        return a.new, err


class UserAS(BaseSolverAS):
    def __init__(self, script, *a, **k):
        super().__init__(*a, **k)
        self.script = script
        self._reset()

    def _reset(self):
        self.script.resets += 1

    def _update_stages(self, u, h):
        return self.script.answer(self, u, h, True)

    def _q(self):
        return self.script.q


class UserCS(BaseSolverCS):
    def __init__(self, script, *a, **k):
        super().__init__(*a, **k)
        self.script = script
        self._reset()

    def _reset(self):
        self.script.resets += 1

    def _update_stages(self, u, h):
        return self.script.answer(self, u, h, False)


class Stop(Exception):
    """The model cannot say what comes next."""


class C20(Prop):
    id = "C20"
    quick, thorough = 9000, 70000 * 4
    rule = ("one run = up to 7 operations (step, evolve, reset, settings) of a user-defined scheme whose states, error estimates, "
            "non-finite values and exceptions the scenario scripts, with interrupts at points of the driver; every attempt it was "
            "asked for and every result is checked against an executable model of the drivers; non-trivial when an attempt was "
            "rejected or failed, or an integration took three steps")
    real = "BaseSolverAS, BaseSolverCS, SolverConfig, logging helper"
    stub = "the Runge-Kutta scheme (scripted, fault-injecting), interrupts and failed allocations at chosen points"

    def gen(self, g, tier):
        n = g.pick(1, 1, 1, 2, 3)
        cl = [self.client(g) for _ in range(n)]
        if n > 1 and g.chance(.5):      # one class, of several orders
            for c in cl[1:]:
                c["q"] = cl[0]["q"] + 1
        s = {"clients": cl}
        if n > 1:
            order = [i for i, c in enumerate(cl) for _ in c["ops"]]
            g.r.shuffle(order)
            s["order"] = order
        return s

    def client(self, g):
        adaptive = g.chance(.75)
        s = {"kind": "as" if adaptive else "cs", "n": g.r.randint(1, 6), "cplx": g.chance(.5), "q": g.pick(1, 2, 3, 4, 5, 7),
             "seed": g.r.randint(0, 99999), "level": g.pick("DEBUG", "WARNING", "CRITICAL"),
             "config": g.config(1.0) if adaptive else None, "limits": {}, "script": [], "ops": []}
        mood = g.pick("good", "good", "mixed", "mixed", "bad")
        for _ in range(g.r.randint(1, 14)):
            k = g.r.random()
            if not adaptive:
                e = {"w": "raise", "exc": g.pick("fault", "kbd", "mem", "fpe", "val", "minstep", "assert", "type", "stop", "exit", "iter", "key", "runtime", "cancel")} if k < .08 else {}
                if k > .96:
                    e = {"w": "nan"}
            else:
                lim = {"good": .85, "mixed": .5, "bad": .06}[mood]
                if k < lim:
                    e = {"s": g.pick(1 + g.logu(-5, 1), 1.0 + g.logu(-3, 1), g.logu(.01, 3), 4.0, 3.999)}
                elif k < lim + (1 - lim) * .6:
                    e = {"s": g.pick(1 - g.logu(-5, -.1), g.logu(-9, -.01), .25, g.r.uniform(.2, .9))}
                elif k < lim + (1 - lim) * .9:
                    e = {"w": g.pick("nan", "inf", "unan", "uinf", "zero", "zerou", "both")}
                else:
                    e = {"w": "raise", "exc": g.pick("fault", "kbd", "mem", "fpe", "val", "minstep", "loops", "assert", "type", "stop", "exit", "iter", "key", "runtime", "gen")}
                if g.chance(.3):
                    e["small"] = True
                    e["smallerr"] = g.pick(1e3, 1e-3, 0.0)
                if g.chance(.1):
                    e["size"] = g.logu(-30, 30)
            s["script"].append(e)
        if adaptive and g.chance(.12):
            # everything fails for a long while, just within or beyond the number of attempts
            s["config"].update(decr_f=g.pick(.9, .97, .99), minh=g.pick(1e-16, 1e-300, 1e-3))
            s["script"] = [{"s": g.r.uniform(.9, .999)}] * g.pick(48, 49, 50, 51, 52, 60) + s["script"][:2] + [{"s": 1.3}]
        if adaptive and g.chance(.2):       # the scheme declares limits of its own
            s["limits"] = {k: v for k, v in (("MAX_LOOPS", g.pick(1, 3, 10, 60)), ("MAX_S", g.pick(2.0, 5.0, 3.0)),
                                             ("MIN_S", g.pick(.1, .2, .05))) if g.chance(.5)}
        for _ in range(g.r.randint(1, 7)):
            k = g.r.random()
            if k < .5:
                o = {"op": "step", "h": g.pick(None, None, g.logu(-3, 1), 0.0 if g.chance(.3) else g.logu(-17, -14), g.logu(3, 9))}
                if g.chance(.05):
                    o["h"] = g.pick(-.1, math.nan, -1e-300)
                    o["bad"] = True
            elif k < .75:
                t0 = g.pick(0.0, 0.0, -1.0, 3.7, -100.0, 1e6, g.r.uniform(-5, 5))
                span = g.logu(-2, 2)
                o = {"op": "evolve", "t0": t0, "tf": t0 + span, "h": g.pick(None if adaptive else span / 7, span * g.logu(-2, .3) if adaptive else span / g.r.randint(1, 220)),
                     "store": g.chance(.8), "freq": g.pick(1, 1, 2, 3, 7, 100)}
                if not adaptive and g.chance(.5):
                    o["h"] = span * g.logu(-2, 0)
            elif k < .85:
                o = {"op": "reset"}
            elif adaptive:
                c = g.config(1.0)
                if g.chance(.3):
                    o = {"op": "newconfig", "config": c}
                else:
                    name = g.pick(*NAMES)
                    o = {"op": "set", "name": name, "value": c[name]}
            else:
                o = {"op": "reset"}
            if o["op"] in ("step", "evolve", "reset") and g.chance(.12):
                o["faults"] = [{"kind": "line", "n": g.r.randint(1, g.pick(10, 40, 200)), "what": g.pick("kbd", "mem", "exit")}]
            s["ops"].append(o)
        return s

    def execute(self, run):
        todo = [Follow().operations(run, c) for c in run.scen["clients"]]
        for i in run.scen.get("order", []):
            if i < len(todo):
                next(todo[i], None)
        for t in todo:
            for _ in t:
                pass


class Follow:
    """One solver and the model of its driver."""

    def operations(self, run, s):
        adaptive = s["kind"] == "as"
        sc = self.sc = Script(run, s)
        self.run = run
        lam, nl = np.full(s["n"], -1.0), lambda u: u
        if adaptive:
            lim = dict({"MAX_LOOPS": 50, "MAX_S": 4.0, "MIN_S": .25}, **(s.get("limits") or {}))
            sc.lim = lim
            cls = type("UserAS", (UserAS,), dict(s["limits"])) if s.get("limits") else UserAS
            S = cls(sc, lam, nl, config=SolverConfig(**s["config"]), loglevel=s["level"])
        else:
            S = UserCS(sc, lam, nl, loglevel=s["level"])
        u0 = sc.vector()
        u, h = u0, .1
        self.flag, self.due = False, 0      # what the next attempt must see: acceptance flag, least number of resets
        for i, o in enumerate(s["ops"]):
            if i:
                yield
            what = "op %d (%s)" % (i, o["op"])
            if o["op"] == "set":
                setattr(S.config, o["name"], o["value"])
                sc.cfg[o["name"]] = o["value"]
                continue
            if o["op"] == "newconfig":
                S.config = SolverConfig(**o["config"])
                sc.cfg = dict(o["config"])
                continue
            sc.log = []
            out = {"kind": "ok"}
            f0 = sum(run.env.fired.values()) - sum(v for k, v in run.env.fired.items() if k.startswith("hook"))
            hist = (list(S.t), list(S.u))
            hh = o.get("h")
            if o["op"] == "step" and hh is None:
                hh = h
            with run.env.op(o.get("faults")):
                try:
                    if o["op"] == "reset":
                        S.reset()
                    elif o["op"] == "step":
                        r = S.step(u, hh)
                        out["r"] = r if adaptive else (r, hh, hh)
                    else:
                        out["r"] = S.evolve(u0, o["t0"], o["tf"], hh, store_data=o["store"], store_freq=o["freq"])
                except BaseException as e:
                    out = {"kind": "err", "exc": exc_name(e), "e": e}
            hit = sum(run.env.fired.values()) - sum(v for k, v in run.env.fired.items() if k.startswith("hook")) > f0
            hit = hit and out["kind"] == "err" and out["e"] is run.env.raised
            run.log(o["op"], out["kind"], out.get("exc", ""), [(a.h, a.flag) for a in sc.log])
            if any(a.exc is not None or (a.s is not None and not a.s >= 1) for a in sc.log):
                run.nontrivial = True
            if o["op"] == "reset":
                if not hit:
                    run.check(out["kind"] == "ok" and not sc.log, "reset", lambda: "%s: %s" % (what, out))
                    run.check(list(S.t) == [] and list(S.u) == [], "reset", lambda: "%s: history left" % what)
                    run.check(sc.resets >= 1, "reset", lambda: "%s: the scheme was not told" % what)
                else:
                    run.probe["reset interrupted"] += 1
                    # not finished: the caller resets again
                    S.reset()
                self.flag, self.due = False, 1
                u, h = u0, .1
                continue
            if o["op"] == "step":
                run.check(len(S.t) == len(hist[0]) and all(x is y for x, y in zip(S.u, hist[1])), "history", lambda: "%s changed the stored history" % what)
            try:
                if o.get("bad"):
                    run.check(out["kind"] == "err", "refuse", lambda: "%s: h=%s was accepted" % (what, hh))
                    run.check(not sc.log, "refuse", lambda: "%s: the scheme was asked for a step of %s" % (what, hh))
                    S.reset()
                    self.failed()
                    u, h = u0, .1
                    continue
                if o["op"] == "step":
                    n, end = self.step(run, what, adaptive, sc.log, 0, u, hh, hit, what)
                    self.result(run, what, sc.log, n, end, out, hit)
                    if end[0] == "ok":
                        nu, nh, ns = out["r"]
                        run.check(self.eq(nu, end[1]), "state", lambda: "%s: returned another state than the scheme's" % what)
                        run.check(nh == end[2], "size", lambda: "%s: size %s reported, %s used" % (what, d(nh), d(end[2])))
                        self.near(run, what, ns, end[3])
                        u, h = nu, float(ns)
                        self.flag, self.due = True, 0
                        run.simtime += float(nh)
                    else:
                        self.failed()
                        u, h = u0, .1
                        S.reset()
                else:
                    self.evolve(run, what, adaptive, S, o, u0, sc.log, out, hit)
                    if out["kind"] == "ok":
                        u, h = out["r"], .1
                        run.simtime += o["tf"] - o["t0"]
                    else:
                        u, h = u0, .1
                        self.failed()
                        S.reset()
            except Stop:
                run.probe["not predicted"] += 1
                S.reset()
                self.flag, self.due = False, 1
                u, h = u0, .1
            if u is not u0 and not finite(u):
                S.reset()
                self.flag, self.due = False, 1
                u = u0

    def failed(self):
        self.flag, self.due = False, 1

    @staticmethod
    def eq(a, b):
        return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)

    @staticmethod
    def near(run, what, ns, want):
        run.check(any(abs(ns - w) <= 1e-9 * w for w in want), "grow", lambda: "%s: next size %s, expected %s" % (what, d(ns), " or ".join(d(w) for w in want)))

    def result(self, run, what, log, n, end, out, hit):
        """The operation ended as the attempts say."""
        run.check(n == len(log), "attempts", lambda: "%s: %d attempts, expected %d (%s)" % (what, len(log), n, end))
        if hit:
            run.probe["interrupted"] += 1
            end[0] = "int"
            return
        if end[0] == "ok":
            run.check(out["kind"] == "ok", "outcome", lambda: "%s: %s though the last attempt is acceptable" % (what, out))
        elif end[0] == "exc":
            run.check(out["kind"] == "err" and out["e"] is end[1], "outcome", lambda: "%s: the scheme raised %r, the caller got %s" % (what, end[1], out))
        else:
            run.check(out.get("exc") == end[1], "outcome", lambda: "%s: expected %s after %d attempts, got %s" % (what, end[1], n, out))
        run.probe["end: " + (end[0] if end[0] != "err" else end[1])] += 1

    def step(self, run, what, adaptive, log, at, u, h, hit, w):
        """Follows one step through the recorded attempts; returns (next attempt, how it ended)."""
        tol = 1e-12
        k = 0
        while True:
            if at + k >= len(log):
                if hit:
                    return at + k, ["int"]
                run.check(False, "attempts", lambda: "%s: no attempt of size %s was made after %d" % (w, d(h), k))
            a = log[at + k]
            run.check(abs(a.h - h) <= tol * abs(h), "size", lambda: "%s: attempt %d of size %s, expected %s" % (w, k, d(a.h), d(h)))
            run.check(self.eq(a.u, u), "state", lambda: "%s: attempt %d got another state than the one accepted last" % (w, k))
            if adaptive:
                run.check(a.flag == self.flag, "flag", lambda: "%s: attempt %d saw acceptance flag %s, expected %s" % (w, k, a.flag, self.flag))
            run.check(a.resets >= self.due, "reset", lambda: "%s: attempt %d: the scheme was not reset" % (w, k))
            if self.flag and adaptive:
                run.check(a.resets == 0, "reset", lambda: "%s: attempt %d: the scheme was reset between steps, the flag says it may go on" % (w, k))
            self.due = 0
            if a.exc is not None:
                self.failed()
                return at + k + 1, ["exc", a.exc]
            if not adaptive:
                return at + k + 1, ["ok", a.new, a.h, [a.h]]
            c = a.cfg
            if abs(a.s - 1) < 1e-10:
                raise Stop()
            if a.s >= 1:
                self.flag = True
                s = min(a.s, self.sc.lim["MAX_S"])
                want = [s * a.h if s > c["incr_f"] else a.h]
                if abs(s / c["incr_f"] - 1) < 1e-9:
                    want = [s * a.h, a.h]
                return at + k + 1, ["ok", a.new, a.h, want]
            self.flag = False
            f = self.sc.lim["MIN_S"] if math.isnan(a.s) else min(max(a.s, self.sc.lim["MIN_S"]), c["decr_f"])
            h = f * a.h
            k += 1
            tol = 1e-9
            if k > self.sc.lim["MAX_LOOPS"]:
                self.failed()
                return at + k, ["err", "MaxLoopsExceeded"]
            if abs(h / c["minh"] - 1) < 1e-9:
                raise Stop()
            if h < c["minh"]:
                self.failed()
                return at + k, ["err", "MinimumStepReached"]

    def evolve(self, run, what, adaptive, S, o, u0, log, out, hit):
        t0, tf = o["t0"], o["tf"]
        ulp = EPS * max(abs(t0), abs(tf))
        self.flag, self.due = False, 1
        hist = [(t0, u0)]
        end = ["ok"]
        at = n = 0
        u, t = u0, t0
        if adaptive:
            h = o["h"] if o["h"] is not None else (tf - t0) / 100
            clip = t + h > tf
            while True:
                if t >= tf:
                    break
                if tf - t <= 8 * ulp and at == len(log):
                    break
                if clip:
                    # shortened to end at tf: by the exact remainder
                    h = tf - t
                if at < len(log) and abs(log[at].h - (tf - t)) <= 8 * ulp:
                    h = log[at].h       # rounding of the time decides by a few units which
                run.check(at < len(log) or hit, "attempts", lambda: "%s: stopped at t=%s before tf=%s after %d steps" % (what, d(t), d(tf), n))
                at, end = self.step(run, what, adaptive, log, at, u, h, hit, "%s, step %d at t=%s" % (what, n, d(t)))
                if end[0] != "ok":
                    break
                if t + end[2] == t:
                    end = ["err", "MinimumStepReached"]
                    break
                u, t = end[1], t + end[2]
                n += 1
                run.check(t <= tf + 4 * ulp, "beyond", lambda: "%s: time %s beyond tf=%s" % (what, d(t), d(tf)))
                hist.append((t, u))
                if len(end[3]) > 1 and at < len(log):
                    end[3] = [min(end[3], key=lambda x: abs(x - log[at].h))]
                h = end[3][0]
                if at < len(log) and abs(h - log[at].h) <= 1e-9 * h:
                    h = log[at].h       # rounding of the control factor
                clip = t + h > tf
        else:
            r = (tf - t0) / o["h"]
            lo, hi = math.ceil(r - 1e-8 * r), math.ceil(r + 1e-8 * r)
            if not log and not hit and r < 1 + 1e-6 and out.get("exc") == "ValueError":
                run.check(r < 1 + 1e-9, "refuse", lambda: "%s: refused h=%s for an interval of %s" % (what, d(o["h"]), d(tf - t0)))
                self.flag, self.due = False, 0
                return
            run.check(r > 1 - 1e-6, "refuse", lambda: "%s: h=%s beyond the interval of %s was not refused" % (what, d(o["h"]), d(tf - t0)))
            while n < hi and (n < lo or at < len(log)):
                at, end = self.step(run, what, adaptive, log, at, u, o["h"], hit, "%s, step %d" % (what, n))
                if end[0] != "ok":
                    break
                n += 1
                u, t = end[1], t0 + n * o["h"]
                hist.append((t, u))
        self.result(run, what, log, at, end, out, hit)
        if n >= 3:
            run.nontrivial = True
        if end[0] == "ok":
            run.check(self.eq(out["r"], u), "state", lambda: "%s: returned another state than the last one accepted" % what)
        want = [x for k, x in enumerate(hist) if k % o["freq"] == 0] if o["store"] else []
        got = list(zip(list(S.t), list(S.u)))
        m = len(got)
        if hit and log:
            run.check(m <= len(want) + 1, "history", lambda: "%s: %d points stored, %d due" % (what, m, len(want)))
        elif not hit:
            run.check(m == len(want) == len(S.t) == len(S.u), "history", lambda: "%s: %d times and %d states stored, %d due" % (what, len(S.t), len(S.u), len(want)))
        if log or not hit:
            for (a, x), (b, y) in zip(got, want):
                run.check(abs(a - b) <= 4 * ulp + 1e-12 * abs(b - t0), "history", lambda: "%s: time %s stored, %s expected" % (what, d(a), d(b)))
                run.check(self.eq(x, y), "history", lambda: "%s: the state stored at %s is not the one accepted there" % (what, d(a)))
