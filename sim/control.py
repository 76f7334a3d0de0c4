"""C04-C08: step-size control, liveness, time lines, stored history."""
import math
from fractions import Fraction

import numpy as np

from base import Prop
from boot import ADAPTIVE, CONSTANT, STAGES
from core import HARD, cfg_now, setting_ops
from env import SimBudget
from problems import finite, relerr, u_init
from ref import RefSolver, DEFAULT_CFG, shaky
from simlib import Client, Violation, add_faults, aim, brief, cp, d, gen_evolve, gen_fault, gen_step, same_step

OWN = ("MaxLoopsExceeded", "MinimumStepReached", "SolverError")


def sliding(g, p):
    """A state just off a jump of the nonlinear term that pushes towards it: forces many rejections."""
    c = g.r.uniform(-.5, .5)
    p["nl"] = {"kind": "switch", "a": -g.logu(-.5, 1), "b": g.logu(-2, -.5), "c": c}
    for e in p["u0"]:
        e[0] = c + g.r.choice([-1, 1]) * g.logu(-11, -3)
    p["lam"] = [[x * .02, y * .02] for x, y in p["lam"]]
    c = p["config"] or g.config(p["tau"])
    c["decr_f"] = g.pick(.85, .97, .99, .999, .9999)
    c["minh"] = g.pick(1e-16, 1e-30, 1e-5, 1e-3) * p["tau"]
    p["config"] = c
    return p


class C04(Prop):
    id = "C04"
    quick, thorough = 7800, 60000 * 4
    rule = ("one run = up to 8 steps of an adaptive solver with settings changed in between and NaN/inf/huge/raising faults; every "
            "accepted step, its rejections and the next size are checked against an independent controller; non-trivial when at "
            "least one acceptance was decided by the reference and not left as ambiguous")

    def gen(self, g, tier):
        p = g.relay(g.problem(cls=g.pick(*ADAPTIVE), nls=HARD + ["domain", "wall", "switch"], model_p=.1), .05)
        if g.chance(.15) and not p.get("model"):
            sliding(g, p)
        ops = []
        for _ in range(g.r.randint(1, 8)):
            k = g.r.random()
            if k < .72:
                o = gen_step(g, p, hi=g.pick(-.3, .5, 1.5))
                add_faults(g, p, o, .2)
                ops.append(o)
            elif k < .9:
                ops.append(setting_ops(g, p))
            elif k < .95:
                ops.append({"op": "newconfig", "config": g.config(p["tau"])})
            else:
                ops.append({"op": "reset"})
        ops.append(gen_step(g, p))
        return {"p": p, "ops": ops}

    def execute(self, run):
        s, p = run.scen, run.scen["p"]
        A = Client(run, p, "a")
        ref = RefSolver(p, A.pure)
        clean = True        # the last stage kept from an accepted step was computed without faults
        for i, o in enumerate(s["ops"]):
            if o["op"] != "step":
                A.do(o)
                if o["op"] == "reset":
                    clean = True
                continue
            cfg = cfg_now(A.solver, p["cls"])
            u, h = A.u, A.size(o)
            b = sum(run.env.fired.values())
            out = A.do(o)
            fired = sum(run.env.fired.values()) > b
            if out["kind"] == "ok":
                self.accepted(run, ref, cfg, u, h, out, i, fired or not clean)
                if fired or not clean:
                    # a stage corrupted by the simulated caller may be reused: nothing more to compare
                    A.do({"op": "reset"})
                clean = True
            else:
                run.probe["step failed: " + str(out["exc"])] += 1
                A.do({"op": "reset"})
                clean = True

    def accepted(self, run, ref, cfg, u, h, out, i, dirty):
        what = "op %d" % i
        run.check(finite(out["u"]), "finite", "%s: accepted a state that is not finite" % what)
        hu, hs = out["h"], out["hs"]
        dec = cfg["decr_f"]
        # n rejections: h*0.25^n <= used <= h*decr^n for some n
        r = hu / h if h > 0 else 1.0
        if r > dec * (1 + 1e-9):
            run.check(abs(r - 1) <= 1e-12, "shrink", lambda: "%s: used %s of the %s asked for; decr_f is %s" % (what, d(hu), d(h), d(dec)))
        else:
            run.probe["accepted after rejection"] += 1
            n = max(1, math.ceil(math.log(r) / math.log(.25) - 1e-9))
            run.check(r <= dec ** n * (1 + 1e-9) or n > 51, "shrink",
                      lambda: "%s: %s of %s is not a product of factors in [0.25, %s]" % (what, d(hu), d(h), d(dec)))
        run.check(hs >= hu * (1 - 1e-13) and hs <= 4.0 * hu * (1 + 1e-12), "grow",
                  lambda: "%s: next size %s after a step of %s" % (what, d(hs), d(hu)))
        if hs != hu:
            run.check(hs > cfg["incr_f"] * hu * (1 - 1e-12), "grow", lambda: "%s: size grew by %.6g, threshold %.6g" % (what, hs / hu, cfg["incr_f"]))
        if dirty:
            run.probe["accepted with a faulty stage"] += 1
            return
        if not ref.trusted(hu) or not ref.trusted(h) or not finite(u):
            run.probe["outside the contour"] += 1
            return
        un, wu, acc, lo, hi = ref.next_range(u, hu, cfg)
        if not (finite(un) and np.isfinite(wu)) or wu > 1e100:
            run.probe["overflow"] += 1
            return
        try:
            self.compare(run, ref, cfg, u, h, hu, hs, acc, lo, hi, what)
        except Violation:
            if not shaky(ref, u, h, cfg, hu):
                raise
            run.probe["decided by rounding"] += 1

    def compare(self, run, ref, cfg, u, h, hu, hs, acc, lo, hi, what):
        run.check(acc, "accept", lambda: "%s: accepted h=%s though the error estimate allows s<1 (control factor at most %.9g)"
                  % (what, d(hu), ref.s_range(u, hu, cfg)[2][1]))
        run.check(lo * (1 - 1e-6) <= hs / hu <= hi * (1 + 1e-6), "grow",
                  lambda: "%s: next/used size is %.9g, expected %.9g..%.9g" % (what, hs / hu, lo, hi))
        pred = ref.control(u, h, cfg)
        if pred["kind"] == "ambiguous":
            run.probe["ambiguous control"] += 1
            return
        run.nontrivial = True
        run.check(pred["kind"] == "ok", "shrink", lambda: "%s: accepted h=%s where the reference gives up after %d attempts" % (what, d(hu), pred["n"]))
        run.check(abs(hu - pred["h"]) <= max(1e-8, 8 * pred["hrel"]) * pred["h"], "shrink",
                  lambda: "%s: used %s, the reference after %d rejections %s" % (what, d(hu), pred["n"], d(pred["h"])))
        if pred["n"]:
            run.probe["rejections predicted"] += pred["n"]


# --------------------------------------------------------------------------
class C05(Prop):
    id = "C05"
    quick, thorough = 7800, 60000 * 4
    rule = ("one run = steps of an adaptive solver on a hard, degenerate or fault-ridden problem, or a whole integration with no "
            "error; progress is required within a bounded number of nonlinear calls; non-trivial when a rejection, fault or "
            "degenerate error estimate occurred")

    def gen(self, g, tier):
        k = g.r.random()
        cls = g.pick(*ADAPTIVE)
        if k < .3:
            p = g.problem(cls=cls, nls=["zero", "zero", "const", "poly"], defaults_ok=True)
            kind = p["nl"]["kind"]
            if kind == "const" and cls == "IF45DP":
                p["nl"] = {"kind": "zero"}
            if kind == "poly":      # zero state: stays zero, with no error
                p["u0"] = [[0.0, 0.0] for _ in p["u0"]]
            elif g.chance(.3):
                p["u0"] = [[x * (i % 2), y * (i % 2)] for i, (x, y) in enumerate(p["u0"])]
            if g.chance(.3) and p["form"] != "eig":
                p["lam"] = [[0.0, 0.0] for _ in p["lam"]]
            for z in p["lam"]:      # no overflow within the interval
                z[0] = min(z[0], 1.0)
            ev = gen_evolve(g, p)
            return {"kind": "noerror", "p": p, "ops": [ev]}
        p = g.problem(cls=cls, nls=HARD + ["domain", "wall", "switch"], model_p=.08)
        if g.chance(.3) and not p.get("model"):
            sliding(g, p)
        elif p.get("config") and g.chance(.3):
            p["config"]["minh"] = g.pick(1e-3, 1e-2, .1, 1e-300, 1e-50) * p["tau"]
        if g.chance(.1) and not p.get("model"):
            p["u0"] = g.state(len(p["u0"]), p["udtype"] != "complex", "zero")
        ops = []
        for _ in range(g.r.randint(1, 6)):
            o = gen_step(g, p, hi=g.pick(-.3, .5, 1.5))
            if g.chance(.4):
                add_faults(g, p, o, 1.0)
                if g.chance(.4):
                    o["faults"] = [{"kind": "nl", "at": g.r.randint(0, 12), "what": g.pick("nan", "inf", "nan1", "inf1", "huge"),
                                    "len": g.pick(1, 3, 10, 40, 150, 1000)}]
            elif g.chance(.3):
                o["edge"] = True
            ops.append(o)
            if g.chance(.06):
                ops.append({"op": "reset"})
        return {"kind": "steps", "p": p, "ops": ops}

    def execute(self, run):
        s, p = run.scen, run.scen["p"]
        A = Client(run, p, "a")
        if s["kind"] == "noerror":
            o = s["ops"][0]
            # step size can only grow: at most ~100 steps plus the growth-free ones the threshold allows
            n = (o["tf"] - o["t0"]) / (o["h"] or (o["tf"] - o["t0"]) / 100)
            out = A.do(o, limit=int(60 + STAGES[p["cls"]] * 3 * (n + 50)))
            run.nontrivial = True
            run.check(out["kind"] == "ok", "noerror", lambda: "integration without error from %s to %s: %s" % (d(o["t0"]), d(o["tf"]), brief(out)))
            run.check(finite(out["u"]), "noerror", "integration without error gave a state that is not finite")
            # and single steps from there
            for h in (None, .1 * p["tau"]):
                o2 = A.do({"op": "step", "h": h, "h0": .05 * p["tau"]})
                run.check(o2["kind"] == "ok", "noerror", lambda: "step without error: %s" % brief(o2))
            return
        ref = RefSolver(p, A.pure)
        st = STAGES[p["cls"]]
        pending = 0             # failed steps since faults stopped
        dirty = False
        old = None
        for i, o in enumerate(s["ops"]):
            if old is not None:
                A.do({"op": "set", "obj": "config", "name": "minh", "value": old})
                old = None
            if o["op"] == "reset":
                A.do(o)
                dirty, pending = False, 0
                continue
            for attempt in range(3):
                u, h = A.u, A.size(o)
                f = o.get("faults") if attempt == 0 else []
                if o.get("edge") and attempt == 0 and not dirty and finite(u) and ref.trusted(h):
                    # the minimum is exactly the step size the rejections lead to: not below it, so to be tried
                    x = ref.control(u, h, dict(cfg_now(A.solver, p["cls"]), minh=5e-324))
                    if x["kind"] == "ok" and x["n"] and x["exact"] and not shaky(ref, u, h, cfg_now(A.solver, p["cls"])):
                        old = A.solver.config.minh
                        A.do({"op": "set", "obj": "config", "name": "minh", "value": float(x["h"])})
                        run.probe["minimum at the accepted size"] += 1
                b, c0 = sum(run.env.fired.values()), run.env.calls["a"]
                out = A.do(o, faults=f, limit=51 * st + 2)
                fired = sum(run.env.fired.values()) > b
                used = run.env.calls["a"] - c0
                what = "op %d try %d" % (i, attempt)
                run.check(out.get("exc") != "SimBudget", "endless", lambda: "%s: step from h=%s still going after %d nonlinear calls" % (what, d(h), used))
                if out["kind"] == "ok":
                    dirty = fired
                    pending = 0
                    if out["h"] != h:
                        run.nontrivial = True
                    break
                run.nontrivial = True
                run.probe["step failed: " + str(out["exc"])] += 1
                pred = None
                if finite(u) and ref.trusted(h):
                    pred = ref.control(u, h, cfg_now(A.solver, p["cls"]))
                if not fired and not f:
                    run.check(out["own"], "error", lambda: "%s: step raised %s" % (what, brief(out)))
                if fired:
                    dirty, pending = True, 0
                    continue
                if f:
                    dirty = True
                    continue
                pending += 1
                if pred is None:
                    run.probe["not comparable"] += 1
                    break
                # no fault in this step: it may fail only if the reference fails too, or once after a fault
                if pred["kind"] == "ok" and ref_solid(ref, u, pred) and not shaky(ref, u, h, cfg_now(A.solver, p["cls"])):
                    allowed = 1 if dirty else 0
                    run.check(pending <= allowed, "progress", lambda: "%s: %s from h=%s, where h=%s is acceptable after %d rejections"
                              % (what, brief(out), d(h), d(pred["h"]), pred["n"]))
                    continue
                run.probe["failure confirmed" if pred["kind"] == "err" else "failure ambiguous"] += 1
                A.do({"op": "reset"})
                dirty, pending = False, 0
                break


def ref_solid(ref, u, pred):
    un, _, _, wu = ref.attempt(u, pred["h"])
    return finite(un) and np.isfinite(wu) and wu < 1e100


# --------------------------------------------------------------------------
class C06(Prop):
    id = "C06"
    quick, thorough = 7200, 50000 * 4
    rule = ("one run = one adaptive evolve compared with a twin solver driven step by step by the documented loop; non-trivial when "
            "the run took at least three steps or had to shorten or refuse a step")

    def gen(self, g, tier):
        p = g.problem(cls=g.pick(*ADAPTIVE), nls=HARD + ["zero", "zero"], model_p=.1)
        op = gen_evolve(g, p, freq=False)
        tau = p["tau"]
        span = op["tf"] - op["t0"]
        k = g.r.random()
        if k < .12:
            op["h"] = span * g.pick(1.0, 1.5, 10.0, 1e6)
        elif k < .24 and not p.get("model"):
            # many steps that never grow
            p["config"] = dict(p["config"] or g.config(tau), incr_f=4.5, epsilon=1e-2)
            p["nl"] = {"kind": g.pick("lin", "zero"), "a": .3}
            p["lam"] = g.lam(len(p["lam"]), "mild", p["ldtype"] != "complex", nz=(p["form"] == "eig"), cap=1.0 if p["form"] != "full" else .3)
            op["h"] = span / (g.r.randint(95, 330) if g.chance(.9) else g.r.randint(330, 1500))
            op["tf"] = op["t0"] + span
            if g.chance(.3):
                op["t0"], op["tf"] = -span, 0.0
            if g.chance(.2):
                op["h"] = None
        elif k < .30:
            off = g.pick(1e3, 1e6, 1e9, -1e7) * tau
            op["t0"], op["tf"] = off, off + span
        elif k < .33:
            op["tf"] = op["t0"]
        elif k < .36:
            # far away, with a jump the step size cannot resolve at that offset
            if not p.get("model"):
                sliding(g, p)
            off = g.pick(1e10, 1e12) * tau
            op["t0"], op["tf"] = off, off + 2 * tau
            op["h"] = g.pick(None, .1 * tau)
        return {"p": p, "ops": [op]}

    def execute(self, run):
        s, p = run.scen, run.scen["p"]
        if not s["ops"]:
            return
        op = s["ops"][0]
        t0, tf = op["t0"], op["tf"]
        lim = 2600 if not op["h"] or (tf - t0) / op["h"] <= 330 else 13000
        A = Client(run, p, "a")
        a = A.do(dict(op, store=True, freq=1), limit=lim)
        t, us = a["t"], a["us"]
        ulp = np.spacing(max(abs(t0), abs(tf)))
        run.check(len(t) == len(us), "pairs", "%d times, %d states" % (len(t), len(us)))
        run.check(len(t) >= 1 and t[0] == t0, "start", lambda: "history starts at %s, t0=%s" % (t[:1], d(t0)))
        run.check(relerr(us[0], A.u0) == 0, "start", "first stored state is not the initial state")
        if tf == t0:
            run.check(a["kind"] == "ok" and len(t) == 1 and relerr(a["u"], A.u0) == 0, "empty", lambda: "empty interval: %s, %d points" % (brief(a), len(t)))
            run.nontrivial = True
            return
        for k in range(1, len(t)):
            run.check(t[k] > t[k - 1], "advance", lambda k=k: "time did not advance at step %d: %s -> %s" % (k, d(t[k - 1]), d(t[k])))
            run.check(t[k] <= tf + 4 * ulp, "end", lambda k=k: "stepped past tf: t[%d]=%s, tf=%s" % (k, d(t[k]), d(tf)))
        if a["kind"] == "ok":
            run.check(abs(t[-1] - tf) <= (4 + len(t)) * ulp, "end", lambda: "ended at %s, tf=%s" % (d(t[-1]), d(tf)))
            run.check(relerr(us[-1], a["u"]) == 0, "end", "the returned state is not the last one stored")
        if a.get("exc") == "SimBudget":
            run.probe["long run cut"] += 1
        elif a["kind"] != "ok":
            run.probe["evolve failed: " + str(a["exc"])] += 1
            run.check(a["own"], "error", lambda: "evolve from %s to %s raised %s" % (d(t0), d(tf), brief(a)))
        # twin driven by step()
        B = Client(run, p, "b")
        h = op["h"] if op["h"] is not None else (tf - t0) / 100.0
        tc = t0
        if tc + h > tf:
            h = tf - tc
            run.nontrivial = True
        k = 0
        while True:
            if k + 1 >= len(t) and a["kind"] == "ok":
                run.check(tf - tc <= 8 * ulp, "end", lambda: "evolve ended after %d steps at %s of %s" % (k, d(tc), d(tf)))
                break
            if tf - tc <= 8 * ulp:
                # only a rounding remainder of the interval is left
                run.check(len(t) - 1 <= k + 2, "end", lambda: "%d steps stored, the interval is covered after %d" % (len(t) - 1, k))
                break
            if a.get("exc") == "SimBudget" and k + 1 >= len(t):
                break
            b = B.do({"op": "step", "h": h}, limit=lim)
            if b["kind"] != "ok":
                run.check(k + 1 >= len(t), "steps", lambda: "evolve took step %d, which fails with %s when stepped by hand" % (k + 1, brief(b)))
                run.check(a["kind"] == "err" and a["exc"] == b["exc"] or b["exc"] == "SimBudget", "steps",
                          lambda: "evolve: %s; by hand: %s" % (brief(a), brief(b)))
                break
            if tc + b["h"] == tc:
                run.check(a["kind"] == "err" and k + 1 >= len(t), "advance", lambda: "evolve went on after a step of %s at %s, which does not advance the time" % (d(b["h"]), d(tc)))
                run.probe["step too small for the clock"] += 1
                break
            run.check(k + 1 < len(t), "steps", lambda: "evolve stopped (%s) after %d steps, by hand step %d succeeds" % (brief(a), len(t) - 1, k + 1))
            k += 1
            tn = tc + b["h"]
            run.check(abs(t[k] - tn) <= (4 + k) * ulp + 1e-9 * b["h"], "steps", lambda: "t[%d]=%s, by hand %s (h=%s)" % (k, d(t[k]), d(tn), d(b["h"])))
            e = relerr(us[k], b["u"])
            run.check(e <= 1e-7, "steps", lambda: "state %d differs from stepping by hand by %.3g" % (k, e))
            tc = t[k]
            h = b["hs"]
            if tc + h > tf:
                h = tf - tc
        if len(t) > 3:
            run.nontrivial = True
        if len(t) > 100:
            run.probe["more than 100 steps"] += 1


# --------------------------------------------------------------------------
class C07(Prop):
    id = "C07"
    quick, thorough = 7200, 50000 * 4
    rule = ("one run = one constant-step evolve (count from the exact ratio, times, states against a step-by-step twin) or one that "
            "must be refused; non-trivial when at least two steps were taken or a refusal was due")

    def gen(self, g, tier):
        p = g.problem(cls=g.pick(*CONSTANT), nls=["poly", "trig", "sat", "lin", "zero"], model_p=.08)
        tau = p["tau"]
        k = g.r.random()
        if k < .25:
            t0 = g.pick(0.0, 1.0, -2.0) * tau
            span = tau * g.logu(-2, 1)
            kind = g.pick("zero", "neg", "nan", "big", "inf", "-inf", "big")
            h = {"zero": 0.0, "neg": -span / 7, "nan": math.nan, "big": span * g.pick(1.01, 2.0, 1e3), "inf": math.inf, "-inf": -math.inf}[kind]
            tf = t0 + span
            if g.chance(.2):
                tf = t0 - span
                h = abs(h) if not math.isnan(h) and h not in (0.0,) else h
                h = span / 3 if not math.isfinite(h) else h
            return {"p": p, "kind": "refuse", "ops": [{"op": "evolve", "t0": t0, "tf": tf, "h": h, "pre": g.chance(.3)}]}
        n = g.pick(g.r.randint(1, 12), g.r.randint(1, 40), g.r.randint(40, 130), g.r.randint(95, 420))
        if g.chance(.03):
            n = g.r.randint(1000, 2500)
        if k < .65:
            # decimal sizes: h = a/10^b style, t0 = multiple of it
            h = g.pick(.1, .01, .05, .2, .3, .7, .001, .025, 1 / 3, .15, .6) * tau
            m = g.pick(0, 0, 0, 1, 3, -n, -n, g.r.randint(-50, 50))
            t0 = m * h
            tf = (m + n) * h
            if g.chance(.5) and tau == 1.0:
                t0, tf = float("%.12g" % t0), float("%.12g" % tf)
        else:
            span = tau * g.logu(-2, .7)
            t0 = g.pick(0.0, -span, -.37 * span, 2.5 * tau, 1e3 * tau, -1e6 * tau)
            tf = t0 + span
            h = (tf - t0) / n * g.pick(1.0, 1.0, 1 - .3 / n, 1 - .05 / n, 1 / (1 - .4 / n) if n > 1 else 1.0,
                                         1 - 10 ** g.r.uniform(-5, -1) / n, 1 + 10 ** g.r.uniform(-5, -1) / n if n > 1 else 1.0)
        if p.get("model"):
            n = min(n, 40)
        # keep the trajectory tame over long runs
        if not p.get("model"):
            s = (tf - t0) / tau
            for z in p["lam"]:
                z[0] = min(z[0], .5 / max(1.0, s))
            p["nl"]["a"] = min(1.0, max(-1.0, p["nl"].get("a", 0))) / max(1.0, s)
        if p["form"] != "diag" and n > 150:
            n = 150
            tf = t0 + n * h
        return {"p": p, "kind": "count", "ops": [{"op": "evolve", "t0": t0, "tf": tf, "h": h, "pre": g.chance(.15)}]}

    def execute(self, run):
        s, p = run.scen, run.scen["p"]
        if not s["ops"]:
            return
        op = s["ops"][0]
        t0, tf, h = op["t0"], op["tf"], op["h"]
        A = Client(run, p, "a")
        if op["pre"]:
            A.do({"op": "evolve", "t0": 0.0, "tf": .3 * p["tau"], "h": .1 * p["tau"]})
        o = {"op": "evolve", "t0": t0, "tf": tf, "h": h, "store": True, "freq": 1}
        st = STAGES[p["cls"]]
        if s["kind"] == "refuse":
            run.nontrivial = True
            c = run.env.calls["a"]
            out = A.do(o, limit=40 * st)
            run.check(out["kind"] == "err" and out["exc"] != "SimBudget", "refuse", lambda: "h=%s on [%s, %s] was not refused: %s"
                      % (d(h), d(t0), d(tf), "ran on" if out.get("exc") == "SimBudget" else brief(out)))
            run.check(run.env.calls["a"] == c, "refuse", lambda: "h=%s on [%s, %s] was integrated before being refused" % (d(h), d(t0), d(tf)))
            run.check(len(out["t"]) <= 1, "refuse", "refused run stored steps")
            return
        ratio = (Fraction(tf) - Fraction(t0)) / Fraction(h)
        noise = 4 * 2.3e-16 * ((abs(t0) + abs(tf)) / h + float(ratio))
        m = round(ratio)
        off = abs(float(ratio - m))
        if noise > .01:
            run.probe["offset too large for h"] += 1
            return
        if off <= noise:
            want = (m, m)
            run.probe["h divides the interval"] += 1
        elif off < max(1e-6, 100 * noise):
            want = (m, m + 1)
        else:
            want = (math.ceil(ratio), math.ceil(ratio))
        if want[0] < 1:
            return
        out = A.do(o, limit=(want[1] + 3) * (st + 1))
        if want[0] == 1 and ratio < 1 and off > noise and out["kind"] == "err" and out["exc"] == "ValueError":
            run.probe["h exceeds the interval by little"] += 1
            return
        run.check(out["kind"] == "ok", "count", lambda: "evolve over [%s, %s] with h=%s: %s" % (d(t0), d(tf), d(h), brief(out)))
        t, us = out["t"], out["us"]
        n = len(t) - 1
        run.check(len(us) == len(t), "pairs", "times and states do not pair up")
        run.check(want[0] <= n <= want[1], "count", lambda: "%d steps of h=%s over [%s, %s], expected %d" % (n, d(h), d(t0), d(tf), want[0]))
        ulp = np.spacing(max(abs(t0), abs(tf)))
        for k in range(n + 1):
            x = float(Fraction(t0) + k * Fraction(h))
            run.check(abs(t[k] - x) <= (2 + k) * ulp, "times", lambda k=k, x=x: "t[%d]=%s, expected %s" % (k, d(t[k]), d(x)))
        run.check(t[-1] >= tf - (2 + n) * ulp - 1e-8 * h, "end", lambda: "ended at %s before tf=%s" % (d(t[-1]), d(tf)))
        run.check(relerr(us[-1], out["u"]) == 0, "end", "the returned state is not the last one stored")
        B = Client(run, p, "b")
        for k in range(n):
            b = B.do({"op": "step", "h": h})
            if b["kind"] != "ok" or not finite(b["u"]):
                break
            e = relerr(us[k + 1], b["u"])
            run.check(e <= 1e-7, "states", lambda: "state %d differs from stepping by hand by %.3g" % (k + 1, e))
        run.nontrivial = n >= 2
        if n >= 100:
            run.probe["100 steps or more"] += 1


# --------------------------------------------------------------------------
class C08(Prop):
    id = "C08"
    quick, thorough = 7200, 50000 * 4
    rule = ("one run = an undisturbed evolve storing everything, and the same evolve with other storing options, possibly cut short by "
            "a raising fault; non-trivial when at least two steps were stored or a fault cut the run")

    def gen(self, g, tier):
        p = g.problem(nls=HARD, model_p=.1)
        op = gen_evolve(g, p)
        op["freq"] = g.pick(1, 2, 3, 4, 5, 7, 10, 10 ** 6)
        op["store"] = g.chance(.85)
        if g.chance(.02):       # long enough for anything that happens only now and then
            p = g.problem(cls=g.pick(*CONSTANT) if g.chance(.7) else None, nls=["trig", "sat"], nmax=2, tame=True)
            n = g.pick(g.r.randint(300, 1200), g.r.randint(1000, 2500))
            if p["cls"] in ADAPTIVE:
                n //= 2
                p["config"] = dict(g.config(p["tau"]), incr_f=4.5, epsilon=1e-2)
            return {"p": p, "ops": [], "long": n, "op": {"op": "evolve", "t0": 0.0, "tf": 3 * p["tau"], "h": 3 * p["tau"] / n, "store": True,
                                                         "freq": g.pick(1, 1, 2, 3, 7)}}
        n = STAGES[p["cls"]] * g.pick(2, 6, 20, 60)
        k = g.r.random()
        if k < .35:
            op["faults"] = [{"kind": "nl", "at": g.r.randint(0, n), "len": 1, "what": g.pick("fault", "kbd", "mem", "os")}]
        elif k < .6:
            op["faults"] = [{"kind": "line", "n": g.r.randint(1, 40 * n // STAGES[p["cls"]]), "what": g.pick("kbd", "mem")}]
        # what the solver was used for before
        pre = [gen_evolve(g, p)] if g.chance(.3) else []
        return {"p": p, "ops": pre, "op": op}

    def execute(self, run):
        s, p, op = run.scen, run.scen["p"], run.scen["op"]
        R = Client(run, p, "r")
        lim = 1500 if not s.get("long") else 8 * s["long"]
        r = R.do(dict(op, store=True, freq=1, faults=[]), limit=lim)
        if s.get("long") and r["kind"] == "ok" and not R.adaptive:
            # the undisturbed run stores every step
            n = (op["tf"] - op["t0"]) / op["h"]
            run.check(n - .01 <= len(r["t"]) - 1 <= n + 1.01, "sample", lambda: "%d of %.3f steps stored" % (len(r["t"]) - 1, n))
            run.probe["long runs"] += 1
        seen = []
        holder = []
        base = [0]

        def hook(k, u):
            if holder and holder[0].armed:
                seen.append(min(len(holder[0].solver.t), len(holder[0].solver.u)))
        A = Client(run, p, "a", hook=hook)
        A.armed = False
        holder.append(A)
        for o in s["ops"]:
            A.do(o)
        A.armed = True
        before = (A.solver.t, A.solver.u)
        b = sum(run.env.fired.values())
        done, at = [0], [op["t0"]]
        if s.get("count", True):      # evolve calls the public step method: count the completed ones
            orig = A.solver.step

            def step(*args, **kw):
                v = orig(*args, **kw)
                if A.adaptive:
                    if at[0] + v[1] == at[0]:      # a step too small to advance the time: evolve gives up after it
                        return v
                    at[0] += v[1]
                done[0] += 1
                return v
            A.solver.step = step
        a = A.do(op, limit=lim)
        fired = sum(run.env.fired.values()) > b
        tr, ur = r["t"], r["us"]
        run.check(len(tr) == len(ur), "pairs", "undisturbed run: times and states do not pair up")
        run.check(len(tr) > 0 or r["kind"] != "ok", "sample", "undisturbed run: the start point is not stored")
        if op["store"]:
            et, eu = tr[:1] + tr[1:][op["freq"] - 1::op["freq"]], ur[:1] + ur[1:][op["freq"] - 1::op["freq"]]
        else:
            et, eu = [], []
        t, us = a["t"], a["us"]
        if a["kind"] == "ok" and not fired:
            run.check(r["kind"] == "ok", "options", lambda: "undisturbed run: %s" % brief(r))
            e = relerr(a["u"], r["u"])
            run.check(e <= 1e-8, "options", lambda: "storing options changed the final state by %.3g" % e)
            run.check(len(t) == len(et) and len(us) == len(et), "sample", lambda: "stored %d times and %d states, expected %d of %d steps (freq %d)"
                      % (len(t), len(us), len(et), len(tr) - 1, op["freq"]))
            if done[0] and op["store"]:
                run.check(len(t) == 1 + done[0] // op["freq"], "sample", lambda: "%d points stored of %d steps completed (freq %d)" % (len(t), done[0], op["freq"]))
        elif a["kind"] == "ok":
            run.probe["fault did not raise"] += 1
            return
        else:
            run.probe["cut short by " + str(a["exc"])] += 1
            line = any(f["kind"] == "line" for f in op.get("faults") or [])
            if line and (A.solver.t is before[0] or A.solver.u is before[1]):
                run.probe["interrupted before it began"] += 1
                return
            run.check(len(t) == len(us) or (line and abs(len(t) - len(us)) == 1), "pairs",
                      lambda: "after %s: %d times, %d states" % (a["exc"], len(t), len(us)))
            if seen and not op.get("pre"):
                run.check(min(len(t), len(us)) >= seen[-1], "prefix", lambda: "%d points were stored before the failure, %d after it"
                          % (seen[-1], min(len(t), len(us))))
            if op["store"] and done[0] and a["exc"] != "SimBudget":
                m = 1 + done[0] // op["freq"] - (1 if line or not a.get("own") and not op.get("faults") else 0)
                run.check(min(len(t), len(us)) >= m, "prefix", lambda: "%d steps were completed before the failure, %d points stored (freq %d)"
                          % (done[0], len(t), op["freq"]))
                run.probe["completed steps before a failure"] += 1
            if not fired:
                run.check(r["kind"] == a["kind"] and r["exc"] == a["exc"], "options", lambda: "%s, undisturbed run: %s" % (brief(a), brief(r)))
            # the undisturbed run may itself have been cut by the work limit
            run.check(min(len(t), len(us)) <= len(et) or r["kind"] != "ok", "prefix", lambda: "%d points stored, the undisturbed run stores %d"
                      % (len(t), len(et)))
        n = min(len(t), len(us), len(et))
        sc = np.spacing(max(abs(op["t0"]), abs(op["tf"]))) * 8
        for k in range(n):
            run.check(abs(t[k] - et[k]) <= sc, "prefix", lambda k=k: "stored time %d is %s, expected %s" % (k, d(t[k]), d(et[k])))
            e = relerr(us[k], eu[k])
            run.check(e <= 1e-8, "prefix", lambda k=k, e=e: "stored state %d differs by %.3g" % (k, e))
        run.nontrivial = n >= 2 or fired
