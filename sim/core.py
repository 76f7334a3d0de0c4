"""C01, C02, C03, C09, C11: caches, failures, restarts, operator forms."""
import math

import numpy as np

from base import Prop
from boot import ADAPTIVE, CLASSES, CONSTANT, FORMS, STAGES
from problems import finite, lin_op, relerr, u_init
from ref import RefSolver, DEFAULT_CFG, shaky
from simlib import (Client, Violation, add_faults, aim, brief, cp, d, gen_evolve, gen_fault, gen_step, same_evolve, same_hist,
                    same_step, BAD, RAISING, STARTS)

HARD = ["poly", "sat", "rot", "spiky", "trig", "lin", "switch", "domain", "wall"]


def setting_ops(g, p):
    """A valid settings change."""
    if p["cls"] in ADAPTIVE:
        c = g.config(p["tau"])
        k = g.pick("epsilon", "epsilon", "incr_f", "decr_f", "safety_f", "adapt_cutoff", "minh")
        if k == "minh" and g.chance(.5):
            c[k] = g.pick(1e-3, 1e-2, .03, .1) * p["tau"]
        return {"op": "set", "obj": "config", "name": k, "value": c[k]}
    return None


def apply_settings(ops, client):
    for o in ops:
        if o["op"] in ("set", "newconfig"):
            client.do(o)


# --------------------------------------------------------------------------
class C01(Prop):
    id = "C01"
    quick, thorough = 7800, 60000 * 4
    rule = ("one run = a random problem and solver, a history of up to 7 steps/evolves/resets/settings changes with at most "
            "one fault each, then a fresh integration compared with a new solver's; non-trivial when the history completed at "
            "least one step or a fault fired in it")

    def gen(self, g, tier):
        p = g.problem(nls=HARD + ["const", "zero"], model_p=.12)
        ops = []
        for _ in range(g.r.randint(1, 7)):
            k = g.r.random()
            if k < .3:
                o = gen_evolve(g, p)
                o["u"] = g.pick("u0", "u0", "cur")
                if g.chance(.06):
                    o["t0"], o["tf"] = o["tf"], o["t0"]      # refused, or no step at all
                else:
                    add_faults(g, p, o, .45)
            elif k < .85:
                o = gen_step(g, p)
                o["u"] = g.pick("cur", "cur", "u0")
                if g.chance(.06):
                    o["bad"] = g.pick(*BAD)
                else:
                    add_faults(g, p, o, .4)
            elif k < .93:
                o = {"op": "reset", "start": g.pick(None, *STARTS), "of": g.pick("last", "begun")}
                if g.chance(.3):
                    o["faults"] = [{"kind": "line", "n": g.r.randint(1, g.pick(3, 6, 14)), "what": g.pick("kbd", "mem")}]
            else:
                o = setting_ops(g, p) or {"op": "reset"}
            ops.append(o)
        if g.chance(.5):
            fresh = [gen_evolve(g, p)]
        else:
            fresh = [{"op": "reset"}] + [gen_step(g, p) for _ in range(g.r.randint(1, 4))]
            fresh[1]["h"] = fresh[1]["h"] or g.h(p)
            fresh[1].pop("back", None)
        if g.chance(.5):
            # the same size as something in the history: its coefficients are the tempting ones to keep
            hs = [o["h"] for o in ops if o.get("h")]
            if hs:
                fresh[-1 if fresh[0]["op"] == "evolve" else 1]["h"] = g.r.choice(hs)
        refill = None
        if g.chance(.25) and not p.get("model"):
            refill = g.state(len(p["u0"]), p["udtype"] != "complex")
        return {"p": p, "ops": ops, "fresh": fresh, "refill": refill}

    def simplify(self, s):
        if s.get("refill"):
            yield dict(s, refill=None)
        yield from super().simplify(s)

    def execute(self, run):
        s = run.scen
        A = Client(run, s["p"], "a", u0=np.array(u_init(s["p"])))
        for o in s["ops"]:
            out = A.do(o)
            run.probe["history " + ("ok" if out["kind"] == "ok" else str(out["exc"]))] += 1
        run.nontrivial = bool(A.used) or bool(run.env.fired) or any(o["op"] == "evolve" for o in s["ops"])
        q = s["p"]
        if s.get("refill") and len(s["refill"]) >= len(q["u0"]):
            # the program writes the next initial state into the array it gave before
            q = dict(q, u0=s["refill"][:len(q["u0"])])
            A.u0[...] = u_init(q)
        B = Client(run, q, "b")
        apply_settings(s["ops"], B)
        for X in (A, B):
            X.u, X.h, X.used = X.u0, None, []
        for i, o in enumerate(s["fresh"]):
            a, b = A.do(o), B.do(o)
            what = "fresh %s %d after history" % (o["op"], i)
            if o["op"] == "evolve":
                same_evolve(run, a, b, "fresh", what)
            else:
                same_step(run, a, b, "fresh", what)
            if a["kind"] != "ok":
                break
            if o["op"] != "evolve":
                run.check(len(A.solver.t) == 0 and len(A.solver.u) == 0, "history",
                          "stored history not empty after reset")


# --------------------------------------------------------------------------
def cfg_now(solver, cls):
    if cls not in ADAPTIVE:
        return None
    c = solver.config
    return {k: getattr(c, k) for k in DEFAULT_CFG}


def touchy(ref, u, h, r, e):
    """Does rounding of the input alone move the one-step map by as much as e?"""
    for ref2, v in ref.wobble(u):
        x = ref2.attempt(v, h)[0]
        if not finite(x) or float(np.max(np.abs(x - r), initial=0.0)) > .05 * e:
            return True
    return False


def check_map(run, ref, p, u, h, un, what, herr=0.0):
    """un must be the one-step map of (u, h)."""
    if not (finite(u) and ref.trusted(h)) or np.max(np.abs(u), initial=0.0) > 1e100:
        run.probe["map not comparable"] += 1
        return
    r, _, _, wu = ref.attempt(u, h)
    if not finite(r) or not finite(un) or not np.isfinite(wu) or wu > 1e8 * max(1.0, float(np.max(np.abs(u)))):
        run.probe["map overflow"] += 1
        return
    run.check(np.shape(un) == np.shape(r), "map", lambda: "%s: shape %s, expected %s" % (what, np.shape(un), np.shape(r)))
    scale = max(wu, float(np.max(np.abs(r), initial=0.0)))
    e = float(np.max(np.abs(un - r), initial=0.0))
    tol = 1e-290 + 2e-9 * scale + herr * (1 + ref.normL * h) * scale
    if e > tol and touchy(ref, u, h, r, e):
        run.probe["map discontinuous at this state"] += 1
        return
    run.check(e <= tol, "map", lambda: "%s: state differs from the one-step map by %.3g (scale %.3g, h=%s)" % (what, e, scale, d(h)))


def check_fresh(run, p, u, h, un, what, cfgops=()):
    """...and what a new solver of the same class makes of it."""
    F = Client(run, p, "fresh")
    apply_settings(cfgops, F)
    F.u = u
    o = F.do({"op": "step", "h": h})
    if o["kind"] != "ok" or abs(o["h"] - h) > 1e-13 * h or not finite(un):
        run.probe["fresh solver not comparable"] += 1
        return
    r = RefSolver(p, F.pure).attempt(u, h)
    scale = max(r[3] if np.isfinite(r[3]) else 0.0, float(np.max(np.abs(o["u"]), initial=0.0)))
    e = float(np.max(np.abs(un - o["u"]), initial=0.0))
    if e > 1e-11 * scale and touchy(RefSolver(p, F.pure), u, h, r[0], e):
        run.probe["map discontinuous at this state"] += 1
        return
    run.check(e <= 1e-11 * scale, "map-fresh", lambda: "%s: state differs from a new solver's by %.3g (scale %.3g)" % (what, e, scale))


class C02(Prop):
    id = "C02"
    quick, thorough = 7800, 60000 * 4
    rule = ("one run = a chain of up to 10 steps (new, repeated, nearly equal, suggested sizes), resets, settings changes and "
            "evolves on one solver, each accepted step compared with an independent evaluation of the scheme and with a new "
            "solver; non-trivial when at least two steps were compared")

    def gen(self, g, tier):
        p = g.relay(g.problem(nls=HARD, model_p=.12, tau=g.pick(1.0, 1.0, 1e-3, 1e-9, 1e-9, 1e4)))
        ops = []
        for _ in range(g.r.randint(2, 10) if g.chance(.94) else g.r.randint(15, 40)):
            k = g.r.random()
            if k < .82:
                ops.append(gen_step(g, p))
            elif k < .90:
                ops.append({"op": "reset", "start": g.pick(None, *STARTS), "of": g.pick("last", "begun")})
            elif k < .94:
                ops.append(setting_ops(g, p) or gen_step(g, p))
            else:
                o = gen_evolve(g, p)
                o.update(freq=1, store=True, u="cur")
                ops.append(o)
        return {"p": p, "ops": ops}

    def execute(self, run):
        s, p = run.scen, run.scen["p"]
        A = Client(run, p, "a")
        ref = RefSolver(p, A.pure)
        done = []
        for i, o in enumerate(s["ops"]):
            if o["op"] == "reset":
                # after a reset the caller may start from any state
                A.do(o)
                continue
            if o["op"] in ("set", "newconfig"):
                done.append(o)
                A.do(o)
                continue
            u = A.u
            out = A.do(o)
            if out["kind"] != "ok":
                run.probe["step failed: " + str(out["exc"])] += 1
                A.do({"op": "reset"})
                continue
            if o["op"] == "step":
                if out["h"] != out["h_in"]:
                    run.probe["step after rejections"] += 1
                check_map(run, ref, p, u, out["h"], out["u"], "op %d step" % i)
                check_fresh(run, p, u, out["h"], out["u"], "op %d step" % i, done)
            else:
                t, us = out["t"], out["us"]
                run.check(len(t) == len(us), "pairs", "times and states do not pair up")
                for k in range(len(t) - 1):
                    h = t[k + 1] - t[k]
                    tm = max(abs(t[k]), abs(t[k + 1]), abs(o["tf"]))
                    he = 4e-16 * tm / h if h > 0 else math.inf
                    if he < 1e-10:
                        check_map(run, ref, p, us[k], h, us[k + 1], "op %d evolve step %d" % (i, k), he * 4)
                if len(t) > 1:
                    run.check(relerr(us[-1], out["u"]) == 0, "pairs", "last stored state is not the returned state")
        run.nontrivial = run.evals >= 2


# --------------------------------------------------------------------------
class C03(Prop):
    id = "C03"
    quick, thorough = 7800, 60000 * 4
    rule = ("one run = a chain of up to 7 steps on a solver, some struck by one raising fault (nonlinear function, line "
            "interrupt, failed allocation or kernel, floating-point trap, no acceptable step) and retried, compared step by step "
            "with a twin that never saw the failed calls; non-trivial when a step raised and a later one completed")

    def gen(self, g, tier):
        p = g.problem(nls=HARD, model_p=.12)
        ops = []
        for i in range(g.r.randint(2, 7)):
            o = gen_step(g, p)
            k = g.r.random()
            if k < .06:
                o["bad"] = g.pick(*BAD)
            elif k < .42:
                add_faults(g, p, o, 1.0, raising=True)
            elif k < .50 and p["cls"] in ADAPTIVE:
                o["faults"] = [{"kind": "nl", "at": 0, "len": 1000, "what": g.pick("nan", "inf", "nan1")}]
            elif k < .56 and p["cls"] in ADAPTIVE:
                # make the step fail through its own settings, then put them back
                big = p["tau"] * g.pick(1e3, 1.0, .01)
                old = (p.get("config") or {}).get("minh", 1e-16)
                ops.append({"op": "set", "obj": "config", "name": "minh", "value": big})
                o["h"] = g.h(p, -.3, 1.0)
                ops.append(o)
                ops.append({"op": "set", "obj": "config", "name": "minh", "value": old})
                o = gen_step(g, p)
            ops.append(o)
            if (o.get("faults") or o.get("bad")) and g.chance(.6):
                # retry: same size, or a nearby one
                q = cp(o)
                q.pop("faults", None)
                q.pop("bad", None)
                if g.chance(.4) and q.get("h"):
                    q["h"] = q["h"] * g.pick(.5, 1 + 1e-9, 2.0, .25)
                ops.append(q)
        ops.append(gen_step(g, p))
        return {"p": p, "ops": ops}

    def execute(self, run):
        s, p = run.scen, run.scen["p"]
        A, B = Client(run, p, "a"), Client(run, p, "b")
        raised = after = 0
        for i, o in enumerate(s["ops"]):
            before = sum(run.env.fired.values())
            a = A.do(o)
            fired = sum(run.env.fired.values()) - before
            if a["kind"] != "ok":
                raised += 1
                run.probe["raised " + str(a["exc"])] += 1
                continue
            if o.get("bad"):
                run.probe["bad argument accepted"] += 1
                break
            if fired and o.get("faults") and not all(f["kind"] == "fp" for f in o["faults"]):
                run.probe["fault did not raise"] += 1
                break
            b = B.do(o, faults=[])
            same_step(run, a, b, "trace-of-failure", "op %d after %d failed steps" % (i, raised))
            if o["op"] == "step" and raised:
                after += 1
        run.nontrivial = bool(raised and after)


# --------------------------------------------------------------------------
class C09(Prop):
    id = "C09"
    quick, thorough = 6600, 50000 * 4
    rule = ("one run = an uninterrupted run, and the same run crashed one to three times at random points, each time restarted "
            "by a new solver from the last checkpoint only; non-trivial when a crash struck after the first checkpoint and the "
            "restarted run completed at least one step")

    def gen(self, g, tier):
        p = g.problem(nls=HARD, model_p=.12)
        if p["cls"] in CONSTANT:
            op = gen_evolve(g, p, freq=False)
            every = g.pick(1, 1, 2, 3, 5)
            n = max(1, round((op["tf"] - op["t0"]) / op["h"]))
            crashes = [{"at": g.r.randint(0, STAGES[p["cls"]] * n), "line": g.chance(.4), "off": g.r.randint(0, 60),
                        "what": g.pick("fault", "kbd", "mem")} for _ in range(g.pick(1, 1, 2, 3))]
            return {"p": p, "op": op, "every": every, "ops": crashes}
        n = g.r.randint(3, 14)
        h0 = g.h(p)
        crashes = []
        for _ in range(g.pick(1, 1, 2, 3)):
            st = {"op": "step", "h": h0}
            crashes.append({"step": g.r.randint(0, n), "fault": gen_fault(g, p, st, raising=True)})
            aim(p, {"op": "step", "h": h0, "faults": [crashes[-1]["fault"]]})
        return {"p": p, "n": n, "h0": h0, "every": g.pick(1, 1, 2, 3), "ops": crashes}

    def execute(self, run):
        if run.scen["p"]["cls"] in CONSTANT:
            self.constant(run)
        else:
            self.adaptive(run)

    def constant(self, run):
        s, p, op = run.scen, run.scen["p"], run.scen["op"]
        U = Client(run, p, "u")
        full = U.do(dict(op, store=True, freq=1), limit=4000)
        if full["kind"] != "ok" or not finite(full["u"]):
            run.probe["uninterrupted run failed"] += 1
            return
        T, S = full["t"], full["us"]
        ck = (op["t0"], u_init(p), 0)
        for j, c in enumerate(s["ops"] + [None]):
            X = Client(run, p, "x%d" % j, u0=ck[1])
            f = []
            if c is not None:
                at = max(0, c["at"] - ck[2] * (STAGES[p["cls"]]))
                f = [{"kind": "nl", "at": at, "len": 1, "what": c["what"]}]
                if c["line"]:
                    f = [{"kind": "line", "n": 5 + 12 * at + c["off"], "what": "kbd"}]
            o = {"op": "evolve", "t0": ck[0], "tf": op["tf"], "h": op["h"], "store": True,
                 "freq": s["every"] if c is not None else 1}
            if ck[2] >= len(T) - 1:
                run.probe["crash after the last step"] += 1
                return
            out = X.do(o, faults=f, limit=4000)
            if out["kind"] == "ok":
                run.check(relerr(out["u"], full["u"]) <= 1e-8, "restart", lambda: "final state after restart at t=%s differs by %.3g"
                          % (d(ck[0]), relerr(out["u"], full["u"])))
                if c is None:
                    run.check(len(out["t"]) == len(T) - ck[2], "restart", lambda: "restart at step %d took %d steps, the rest of the "
                              "uninterrupted run %d" % (ck[2], len(out["t"]) - 1, len(T) - ck[2] - 1))
                    sc = max(abs(T[0]), abs(T[-1]))
                    for k in range(len(out["t"])):
                        run.check(abs(out["t"][k] - T[ck[2] + k]) <= 1e-12 * len(T) * sc, "restart",
                                  lambda k=k: "restarted time %d is %s, uninterrupted %s" % (k, d(out["t"][k]), d(T[ck[2] + k])))
                        e = relerr(out["us"][k], S[ck[2] + k])
                        run.check(e <= 1e-8, "restart", lambda e=e, k=k: "restarted state %d differs by %.3g" % (k, e))
                    if ck[2] > 0:
                        run.nontrivial = True
                        run.probe["restarted mid-run"] += 1
                return
            run.probe["crashed with " + str(out["exc"])] += 1
            m = min(len(out["t"]), len(out["us"]))
            if m >= 1:
                ck = (out["t"][m - 1], np.array(out["us"][m - 1]), ck[2] + (m - 1) * s["every"])

    def adaptive(self, run):
        s, p = run.scen, run.scen["p"]
        U = Client(run, p, "u")
        chain = []
        for k in range(s["n"]):
            o = U.do({"op": "step", "h": s["h0"] if k == 0 else None, "h0": s["h0"]})
            if o["kind"] != "ok" or not finite(o["u"]):
                break
            chain.append((np.array(o["u"]), o["h"], o["hs"]))
        if not chain:
            run.probe["uninterrupted run failed"] += 1
            return
        X = Client(run, p, "x")
        ck = (0, u_init(p), s["h0"])
        k, h = 0, s["h0"]
        todo = list(s["ops"])
        gen = 0
        while k < len(chain):
            f = []
            if todo and todo[0]["step"] <= k:
                f = [todo.pop(0)["fault"]]
            b = sum(run.env.fired.values())
            o = X.do({"op": "step", "h": h}, faults=f)
            if o["kind"] == "ok" and f and sum(run.env.fired.values()) > b and f[0]["kind"] != "fp":
                run.probe["fault did not raise"] += 1
                return
            if o["kind"] != "ok":
                run.check(bool(f), "restart", lambda: "step %d after restart failed with %s, the uninterrupted one did not" % (k, brief(o)))
                gen += 1
                X = Client(run, p, "x%d" % gen, u0=ck[1])
                k, h = ck[0], ck[2]
                run.probe["crashed with " + str(o["exc"])] += 1
                continue
            u, hu, hs = chain[k]
            same_step(run, o, {"kind": "ok", "u": u, "h": hu, "hs": hs}, "restart", "step %d with %d restarts" % (k, gen))
            if gen and ck[0] > 0:
                run.nontrivial = True
            k, h = k + 1, o["hs"]
            if k % s["every"] == 0:
                ck = (k, np.array(o["u"]), h)


# --------------------------------------------------------------------------
class C11(Prop):
    id = "C11"
    quick, thorough = 6600, 50000 * 4
    rule = ("one run = one operator given to two or three solvers of a class in different forms, stepped in lockstep up to 8 times "
            "through rejections; non-trivial when at least one step was compared between two forms")

    def gen(self, g, tier):
        cls = g.pick("ETD34", "ETD34", "ETD35", "ETD35", "IF34", "IF34", "ETD4", "ETD5", "IF4")
        dense = g.chance(.6) and cls in ("ETD34", "ETD35", "IF34")
        forms = [f for f in FORMS[cls] if f != "diag"] if dense else list(FORMS[cls])
        p = g.problem(cls=cls, form="eig" if "eig" in forms else "full", nls=["poly", "sat", "rot", "trig", "lin", "switch", "domain", "spiky"],
                      defaults_ok=False)
        # keep the spectrum where the contour of the full form reaches; IF forms need no contour
        cap = 0.5 if cls.startswith("ETD") else 4.0
        p["lam"] = g.lam(p["n"], "mixed", p["ldtype"] != "complex", nz=True, cap=cap * g.pick(1, 1, .2))
        p["mat"] = {"seed": g.r.randint(0, 10 ** 6), "kind": g.pick("orth", "sym", "sym", "shear", "shear")} if dense else None
        n = len(p["lam"])
        if dense and p["mat"]["kind"] != "shear" and n > 1 and g.chance(.4):      # repeated eigenvalues
            m = g.r.randint(1, n - 1)
            p["lam"] = p["lam"][:m] + [list(p["lam"][g.r.randint(0, m - 1)]) for _ in range(n - m)]
        if dense:
            g.shape(p, cap)
        p["etd"] = g.etd(True)
        p["nl"]["loud"] = False
        ops = [gen_step(g, p, lo=-2.3, hi=-.3) for _ in range(g.r.randint(1, 8))]
        for o in ops[1:]:
            if g.chance(.12):
                o["reset"] = True
        return {"p": p, "forms": forms, "ops": ops}

    def execute(self, run):
        s, p = run.scen, run.scen["p"]
        cs = [Client(run, dict(p, form=f), f) for f in s["forms"]]
        ref = RefSolver(dict(p, form="full"), cs[0].pure)
        adaptive = p["cls"] in ADAPTIVE
        drift = 0.0
        for i, o in enumerate(s["ops"]):
            if o.get("reset"):
                for c in cs:
                    c.do({"op": "reset"})
                drift = 0.0
            h = cs[0].size(o)
            u = cs[0].u
            if not ref.trusted(h) or not finite(u):
                run.probe["outside the contour"] += 1
                return
            pred = None
            if adaptive:
                pred = ref.control(u, h, p["config"])
                if pred["kind"] == "ambiguous":
                    run.probe["ambiguous control"] += 1
                    return
            outs = [c.do({"op": "step", "h": h}) for c in cs]
            a = outs[0]
            try:
                drift = self.compare(run, s, p, cs, ref, u, h, pred, outs, drift, i)
            except Violation as v:
                if adaptive and shaky(ref, u, h, p["config"], a.get("h")) or touchy(ref, u, a.get("h", h), ref.attempt(u, a.get("h", h))[0], 1e-7 * float(np.max(np.abs(u)))):
                    run.probe["decided by rounding"] += 1
                    return
                raise v
            if drift is None or a["kind"] != "ok":
                return
            if drift > 1e-8:
                run.probe["drifted apart"] += 1
                return

    def compare(self, run, s, p, cs, ref, u, h, pred, outs, drift, i):
        adaptive = p["cls"] in ADAPTIVE
        a = outs[0]
        for c, b in zip(cs[1:], outs[1:]):
            w = "op %d, %s against %s" % (i, c.cid, cs[0].cid)
            run.check(a["kind"] == b["kind"], "forms", lambda: "%s: %s / %s" % (w, brief(b), brief(a)))
            if a["kind"] != "ok":
                run.check(a["exc"] == b["exc"], "forms", lambda: "%s: %s / %s" % (w, brief(b), brief(a)))
                continue
            if adaptive:
                run.check(abs(a["h"] - b["h"]) <= max(1e-9, 8 * pred["hrel"]) * a["h"], "forms",
                          lambda: "%s: step of %s / %s" % (w, d(b["h"]), d(a["h"])))
                if a["h"] != h:
                    run.probe["compared after rejection"] += 1
            wu = ref.attempt(u, a["h"])[3]
            if not np.isfinite(wu) or wu < 1e-250 or not finite(a["u"]):
                return None
            e = float(np.max(np.abs(a["u"] - b["u"]))) / max(wu, 1e-300)
            hd = abs(a["h"] - b["h"]) / a["h"] * (1 + ref.normL * a["h"]) * 10
            run.check(e <= 1e-8 + 100 * drift + hd, "forms", lambda: "%s: states differ by %.3g" % (w, e))
            drift = max(drift, e, hd)
            if adaptive:
                _, _, acc, lo, hi = ref.next_range(u, a["h"], p["config"])
                if acc:
                    sp = (hi - lo) / hi + 1e-6
                    run.check(abs(a["hs"] - b["hs"]) <= (2 * sp + 100 * drift) * a["hs"], "forms",
                              lambda: "%s: next step %s / %s" % (w, d(b["hs"]), d(a["hs"])))
            run.nontrivial = True
        return drift
