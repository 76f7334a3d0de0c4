"""C10, C13, C14, C15, C16: isolation, Hankel transform, caller data, models, settings."""
import gc
import math
import random

import numpy as np
from scipy.special import j0 as bessel_j0, j1 as bessel_j1, jn_zeros

import boot
from base import Prop
from boot import ADAPTIVE, CLASSES, CONSTANT, IS_ETD, SolverConfig, ETDConfig, transforms, models, grids, derivatives
from core import HARD, setting_ops
from env import Env, LineTrace, Sched, EXC
from problems import finite, lin_op, pure_nl, relerr, u_init, basis, carr
from simlib import (Client, Run, add_faults, aim, brief, cp, d, gen_evolve, gen_fault, gen_step, same_evolve, same_step)


def policy(s):
    if s.get("switches") is not None:
        return {"kind": "list", "map": {k: to for k, to in s["switches"]}}
    return {"kind": "rand", "rng": random.Random("sched/%s" % s["sched"]["seed"]), "p": s["sched"]["p"]}


def gen_sched(g):
    return {"seed": g.r.randint(0, 10 ** 9), "p": g.pick(.5, .2, .2, .05, .01), "calls": g.chance(.35)}


class Threaded(Prop):
    def concretise(self, s, extra):
        """Replace the seeded scheduler by the switches it made."""
        if extra and extra.get("switches") is not None and s.get("switches") is None and "sched" in s:
            return dict(s, switches=extra["switches"])
        return s


def digest_switches(sched):
    import hashlib
    return hashlib.sha256(repr(sched.switches).encode()).hexdigest()[:16]


def run_sched(run, s, fns, lines=True):
    sc = Sched(policy(s), run.env, lines=lines, calls=bool((s.get("sched") or {}).get("calls")))
    try:
        sc.run(fns)
    finally:
        run.extra = {"switches": sc.switches}
    run.key = digest_switches(sc)
    run.probe["thread switches"] += len(sc.switches)
    run.check(sc.dead != "deadlock", "deadlock", "threads deadlocked")
    return sc


# --------------------------------------------------------------------------
class C10(Threaded):
    id = "C10"
    quick, thorough = 3900, 30000 * 4
    rule = ("one run = 2-4 solvers interleaved call by call, by line-level thread switches, nested in each other's nonlinear "
            "function, or created and dropped in turn; each compared with itself run alone in a clean process; non-trivial when at "
            "least two solvers completed a step and control changed hands in between")

    def gen(self, g, tier):
        kind = g.pick("interleave", "interleave", "threads", "threads", "nested", "churn", "defaults", "defaults")
        nc = g.pick(2, 2, 3, 4)
        same = g.chance(.6)
        cls = g.pick(*sorted(CLASSES)) if kind != "defaults" else g.pick(*sorted(CLASSES))
        first = None
        clients = []
        hs = None
        for i in range(nc):
            p = g.problem(cls=cls if same else None, form=first["form"] if first and same and g.chance(.7) else None, nls=HARD, tau=1.0)
            near = first is not None and same and g.chance(.65)
            if near:
                self.relative(g, p, first)
            if kind == "defaults":
                p["config"] = None
                if p["form"] != "full":
                    p["etd"] = None
                if g.chance(.2) and p["cls"] in ADAPTIVE:
                    p["config"] = g.config()
            first = first or p
            ops = []
            for _ in range(g.r.randint(1, 3 if kind == "threads" else 5)):
                k = g.r.random()
                if k < .7 or kind == "threads":
                    o = gen_step(g, p)
                    if hs and g.chance(.75 if near else .4):
                        o["h"] = g.pick(*hs)
                        o.pop("back", None)
                elif k < .82:
                    o = gen_evolve(g, p)
                    if kind == "nested":
                        o = gen_step(g, p)
                elif k < .9:
                    o = {"op": "reset"}
                else:
                    o = setting_ops(g, p) or {"op": "reset"}
                if o["op"] == "step" and g.chance(.08):
                    f = gen_fault(g, p, o)
                    if f["kind"] == "nl":
                        o["faults"] = [f]
                ops.append(o)
            if kind == "defaults":
                # change settings on this one only
                if p["cls"] in ADAPTIVE and g.chance(.7):
                    ops.insert(g.r.randint(0, len(ops)), setting_ops(g, p))
                if IS_ETD[p["cls"]] and g.chance(.6):
                    ops.insert(0, {"op": "set", "obj": "etd_config",
                                   "name": g.pick("modecutoff", "contour_points"), "value": None})
                    ops[0]["value"] = g.pick(.9, 1.0) if ops[0]["name"] == "modecutoff" else g.pick(3, 4, 5)
            if hs is None:
                hs = [o["h"] for o in ops if o["op"] == "step" and o.get("h")] or None
            clients.append({"p": p, "ops": ops})
        if kind == "threads":
            for c in clients:
                for o in c["ops"]:
                    if o["op"] == "evolve":
                        o["tf"] = o["t0"] + min(o["tf"] - o["t0"], .3)
        s = {"kind": kind, "clients": clients, "share": g.chance(.3), "late": g.chance(.3)}
        if kind in ("interleave", "defaults"):
            order = [i for i, c in enumerate(clients) for _ in c["ops"]]
            g.r.shuffle(order)
            s["order"] = order
        elif kind == "nested":
            s["every"] = g.pick(1, 2, 3, 5)
        elif kind == "threads":
            s["sched"] = gen_sched(g)
        return s

    @staticmethod
    def relative(g, p, first):
        """Make p's operator a close relative of first's: what one solver keeps may then seem to fit the other."""
        for k in ("n", "form", "ldtype", "udtype", "tau"):
            p[k] = first[k]
        n, real = p["n"], p["ldtype"] != "complex"
        p["lam"] = lam = [list(z) for z in first["lam"]]
        p["mat"] = mat = dict(first["mat"]) if first.get("mat") else None
        how = g.pick("other", "same", "swap", "swap", "one", "last", "scale", "conj", "T", "T", "mat")
        if how == "other" or (p["ldtype"] == "int" and how in ("one", "last", "scale")):
            if p["ldtype"] == "int":
                lam = [[float(g.pick(-3, -2, -1, 0, 1)), 0.0] for _ in range(n)]
            else:
                lam = g.lam(n, "mixed", real, nz=p["form"] == "eig", cap=.3 if p["form"] == "full" else 20.0)
        elif how == "swap":
            g.r.shuffle(lam)
        elif how == "conj":
            lam = [[x, -y] for x, y in lam]
        elif how == "scale":
            lam = [[x * .5, y * .5] for x, y in lam]
        elif how in ("one", "last"):
            z = lam[g.r.randint(0, n - 1) if how == "one" else -1]
            z[0] = z[0] * .7 - .05
        elif how == "T" and mat:
            mat["T"] = not mat.get("T")
        elif how == "mat" and mat:
            mat["seed"] = g.r.randint(0, 10 ** 6)
        p["lam"] = lam
        if g.chance(.5):
            p["u0"] = first["u0"]
        else:
            p["u0"] = g.state(n, p["udtype"] != "complex")
            if p["udtype"] == "int":
                p["u0"] = [[float(g.pick(-1, 0, 1, 2)), 0.0] for _ in p["u0"]]
        for k in ("nl", "etd", "config"):
            if g.chance(.4):
                p[k] = first[k]
        if p["form"] == "full" and p["cls"].startswith("ETD") and not p["etd"]:
            p["etd"] = g.etd(True)

    def simplify(self, s):
        if s.get("share"):
            yield dict(s, share=False)
        if s.get("late"):
            yield dict(s, late=False)
        yield from super().simplify(s)

    def alone(self, s, i):
        import driver

        def f():
            r = Run(s)
            c = Client(r, s["clients"][i]["p"], "c%d" % i)
            return {"outs": [c.do(o) for o in s["clients"][i]["ops"]], "cfg": settings_of(c.solver)}
        return driver.forked(f)

    def execute(self, run):
        s = run.scen
        specs = s["clients"]
        if not specs:
            return
        base = []
        for i in range(len(specs)):
            b = self.alone(s, i)
            if "outs" not in b:
                raise RuntimeError(b.get("err"))
            base.append(b)
        outs = [[] for _ in specs]
        cs = {}
        lins = {}

        def make(i, hook=None):
            lin = None
            p = specs[i]["p"]
            if s["share"]:
                k = repr((p["lam"], p["form"], p.get("mat"), p["tau"], p["ldtype"]))
                lin = lins.setdefault(k, lin_op(p))
            cs[i] = Client(run, p, "c%d" % i, lin=lin, hook=hook)
            return cs[i]

        def doit(i):
            k = len(outs[i])
            if k < len(specs[i]["ops"]):
                outs[i].append(cs[i].do(specs[i]["ops"][k]))
                return True
            return False
        kind = s["kind"]
        cfgs = {}
        if kind in ("interleave", "defaults"):
            if not s["late"]:
                for i in range(len(specs)):
                    make(i)
            for i in s["order"]:
                if i < len(specs):
                    if i not in cs:
                        make(i)
                    doit(i)
            for i in range(len(specs)):
                if i not in cs:
                    make(i)
                while doit(i):
                    pass
        elif kind == "churn":
            for i in range(len(specs)):
                c = make(i)
                while doit(i):
                    pass
                cfgs[i] = settings_of(c.solver)
                del c
                cs.pop(i)
                lins.clear()
                gc.collect()
        elif kind == "nested":
            def hook(k, u):
                if k % s["every"] == s["every"] - 1:
                    for j in range(1, len(specs)):
                        if j in cs and len(outs[j]) < len(specs[j]["ops"]) and not busy[0]:
                            busy[0] = True
                            try:
                                doit(j)
                            finally:
                                busy[0] = False
                            run.probe["nested call"] += 1
                            break
            busy = [False]
            make(0, hook)
            for j in range(1, len(specs)):
                make(j)
            for i in range(len(specs)):
                while doit(i):
                    pass
        else:
            if not s["late"]:
                for i in range(len(specs)):
                    make(i)

            def body(i):
                def f():
                    if i not in cs:
                        make(i)
                    while doit(i):
                        pass
                return f
            sc = run_sched(run, s, [body(i) for i in range(len(specs))])
            for i, e in sorted(sc.errors.items()):
                raise e
        if kind != "threads":
            run.key = "%s/%s" % (kind, s.get("order") or s.get("every"))
        n = 0
        for i in range(len(specs)):
            want = base[i]["outs"]
            run.check(len(outs[i]) == len(want), "isolation", "solver %d: %d of %d calls" % (i, len(outs[i]), len(want)))
            for k, (a, b) in enumerate(zip(outs[i], want)):
                what = "solver %d (%s) call %d (%s) among others" % (i, specs[i]["p"]["cls"], k, a["op"])
                if a["op"] == "evolve":
                    same_evolve(run, a, b, "isolation", what, rtol=1e-9)
                else:
                    same_step(run, a, b, "isolation", what, rtol=1e-9)
            cfg = cfgs[i] if i in cfgs else settings_of(cs[i].solver)
            run.check(cfg == base[i]["cfg"], "settings", lambda: "solver %d (%s): settings %s, alone %s" % (i, specs[i]["p"]["cls"], cfg, base[i]["cfg"]))
            n += any(a["kind"] == "ok" and "u" in a for a in outs[i])
        run.nontrivial = n >= 2


def settings_of(s):
    out = {}
    for o in ("config", "etd_config"):
        c = getattr(s, o, None)
        if c is not None:
            out[o] = {k: getattr(c, k) for k in ("epsilon", "incr_f", "decr_f", "safety_f", "adapt_cutoff", "minh", "modecutoff",
                                                 "contour_points", "contour_radius") if hasattr(c, k)}
    return out


# --------------------------------------------------------------------------
class C13(Threaded):
    id = "C13"
    quick, thorough = 6000, 40000 * 4
    rule = ("one run = up to 9 operations (set size, set radius, transform, read) with valid and invalid arguments and one fault at a "
            "line or in a special function, on one transform or on several under a line-level thread schedule; compared with a new "
            "transform after every operation; non-trivial when a change succeeded and one was refused or failed, or threads switched")
    real = "HankelTransform, construct_r_kr_hankel, NumPy, SciPy special functions"
    stub = "interrupts, failed allocations and special-function errors (raised at chosen lines or calls), thread scheduler"

    def gen(self, g, tier):
        threads = g.chance(.25)

        def ops(n):
            out = []
            for _ in range(n):
                k = g.r.random()
                if k < .4:
                    o = {"op": "nr", "v": g.pick(4, 5, 6, 8, 9, 12, 16, g.r.randint(4, 20))}
                    if g.chance(.25):
                        o["v"] = g.pick(3, 0, -5, 4.5, "8", None, float("nan"), 5.0, [6])
                        o["bad"] = True
                elif k < .8:
                    o = {"op": "rmax", "v": g.pick(1.0, 2.5, 1e-3, 1e4, g.logu(-2, 2), 3)}
                    if g.chance(.25):
                        o["v"] = g.pick(0, 0.0, -1.0, -math.inf, math.nan, "2", None, [1.0, 2.0], [2.0])
                        o["bad"] = True
                    elif g.chance(.06):
                        o["v"] = math.inf
                        o["either"] = True
                    elif g.chance(.25):     # nearly the radius it has
                        o["rel"] = 1 + g.r.choice([-1, 1]) * g.logu(-10, -2)
                elif k < .95:
                    o = {"op": g.pick("ht", "iht"), "seed": g.r.randint(0, 999)}
                    if g.chance(.15):
                        o["bad"] = True     # wrong length
                elif k < .975 or threads:
                    o = {"op": "scribble"}  # caller overwrites a matrix it was handed
                else:
                    o = {"op": "stretch", "of": g.pick("r", "kr"), "by": g.pick(2.0, 1e3, -1.0)}   # or converts its grid, in place
                if g.chance(.45) and o["op"] in ("nr", "rmax") and not threads:
                    if g.chance(.7):
                        o["faults"] = [{"kind": "line", "n": g.r.randint(1, g.pick(6, 12, 30)), "what": g.pick("kbd", "mem")}]
                    else:
                        o["faults"] = [{"kind": "special", "name": g.pick("jn_zeros", "j1", "j0", "outer"), "what": g.pick("mem", "fpe", "kbd")}]
                out.append(o)
            return out
        if threads:
            return {"kind": "threads", "sched": gen_sched(g),
                    "clients": [{"nr": g.r.randint(4, 12), "rmax": g.pick(1.0, 2.0, 5.0), "ops": ops(g.r.randint(1, 5))} for _ in range(g.pick(2, 3))]}
        k = g.pick(1, 1, 2)
        s = {"kind": "seq", "clients": [{"nr": g.r.randint(4, 12), "rmax": g.pick(1.0, 2.0, 5.0), "ops": ops(g.r.randint(1, 9 // k))} for _ in range(k)]}
        if k > 1:
            order = [i for i, c in enumerate(s["clients"]) for _ in c["ops"]]
            g.r.shuffle(order)
            s["order"] = order
        return s

    def execute(self, run):
        s = run.scen
        H = transforms.HankelTransform
        objs = [H(c["nr"], c["rmax"]) for c in s["clients"]]
        model = [(c["nr"], c["rmax"]) for c in s["clients"]]
        held = []
        flags = {"ok": 0, "no": 0}
        off = [set() for _ in objs]     # grids the caller has converted

        def do(i, o, lines=True):
            T = objs[i]
            old = model[i]
            if "rel" in o:
                o = dict(o, v=old[1] * o["rel"])
            fired = [False]
            undo = []
            tr = None
            ok = True
            for f in o.get("faults") or []:
                if f["kind"] == "line":
                    tr = LineTrace(run.env, f["n"], EXC[f["what"]], f["what"])
                else:
                    undo.append(self.special(run, f, fired))
            val = None
            try:
                try:
                    if tr:
                        tr.start()
                    if o["op"] in ("nr", "rmax"):
                        setattr(T, o["op"], o["v"])
                    elif o["op"] in ("ht", "iht"):
                        n = T.nr + (1 if o.get("bad") else 0)
                        r = random.Random(o["seed"])
                        v = np.array([r.uniform(-1, 1) for _ in range(n)])
                        w = v.copy()
                        val = getattr(T, o["op"])(v)
                        run.check(np.array_equal(v, w), "argument", "%s changed its argument" % o["op"])
                        held.append((val, val.copy(), "transform handed out"))
                    elif o["op"] == "stretch":
                        x = getattr(T, o["of"])
                        if x.flags.writeable:
                            held[:] = [h for h in held if h[0] is not x]
                            x *= o["by"]
                            off[i].add(o["of"])
                    else:
                        M, z = T.hankel_matrix(), T.bessel_zeros()
                        M[...] = 7.0
                        z[...] = -3.0
                finally:
                    if tr:
                        tr.stop()
                    for u in undo:
                        u()
            except boot_excs() as e:
                ok = False
                run.log("exc", type(e).__name__)
            struck = fired[0] or bool(tr and tr.done)
            what = "transform %d after %s" % (i, o)
            if o["op"] in ("nr", "rmax"):
                new = (o["v"], old[1]) if o["op"] == "nr" else (old[0], o["v"])
                if ok:
                    run.check(not o.get("bad"), "refuse", lambda: "%s: invalid value accepted" % what)
                    model[i] = new
                    if not same_pair(old, new):
                        off[i].clear()
                    flags["ok"] += 1
                else:
                    flags["no"] += 1
                    run.check(struck or o.get("bad") or o.get("either"), "refuse", lambda: "%s: valid value refused" % what)
                    if struck and not o.get("bad") and same_pair((T.nr, T.rmax), new):
                        model[i] = new      # the interrupt arrived once the change was complete
                        if not same_pair(old, new):
                            off[i].clear()
            elif not o.get("bad") and o["op"] not in ("scribble", "stretch"):
                run.check(ok, "transform", lambda: "%s: failed" % what)
            return what

        def consistent(i, what):
            T = objs[i]
            run.check(same_pair((T.nr, T.rmax), model[i]), "report", lambda: "%s: reports %s, last set %s" % (what, (T.nr, T.rmax), model[i]))
            F = H(*model[i])
            run.log(T.r, T.kr)
            pairs = [("r", T.r, F.r), ("kr", T.kr, F.kr), ("matrix", T.hankel_matrix(), F.hankel_matrix()),
                     ("zeros", T.bessel_zeros(), F.bessel_zeros())]
            x = np.cos(np.arange(model[i][0]))
            pairs += [("ht", tryf(T.ht, x), F.ht(x)), ("iht", tryf(T.iht, x), F.iht(x))]
            if np.isfinite(model[i][1]):
                z = jn_zeros(0, model[i][0] + 1)
                z, jN = z[:-1], z[-1]
                direct = {"r": z * model[i][1] / jN, "kr": z / model[i][1], "matrix": 2 * bessel_j0(np.outer(z, z) / jN) / (jN * bessel_j1(z) ** 2)}
                pairs += [(name, b, direct[name]) for name, _, b in pairs if name in direct]
            for name, a, b in pairs:
                if name in off[i] and a is getattr(T, name):
                    continue
                run.check(relerr(a, b) <= 1e-12 if np.all(np.isfinite(b)) else np.array_equal(np.isnan(a), np.isnan(b)), "coherent",
                          lambda name=name, a=a, b=b: "%s: %s is not that of a new transform (%s)" % (what, name, np.shape(a)))
            held.append((T.hankel_matrix(), F.hankel_matrix(), "matrix handed out"))
            if "r" not in off[i]:
                held.append((T.r, F.r, "grid handed out"))

        if s["kind"] == "threads":
            def body(i):
                def f():
                    out = []
                    for o in s["clients"][i]["ops"]:
                        out.append(do(i, o))
                        consistent(i, out[-1])
                return f
            sc = run_sched(run, s, [body(i) for i in range(len(objs))])
            for i, e in sorted(sc.errors.items()):
                raise e
            run.nontrivial = len(sc.switches) > 3
        else:
            pos = [0] * len(objs)
            order = s.get("order") or [0] * len(s["clients"][0]["ops"])
            for i in order:
                if i < len(objs) and pos[i] < len(s["clients"][i]["ops"]):
                    w = do(i, s["clients"][i]["ops"][pos[i]])
                    pos[i] += 1
                    for j in range(len(objs)):
                        consistent(j, w)
            run.nontrivial = flags["ok"] > 0 and flags["no"] > 0
        for a, b, w in held:
            run.check(relerr(a, b) <= 1e-12 or not np.all(np.isfinite(b)), "handed-out", w + " changed later")
        run.real["HankelTransform"] += len(objs)

    def special(self, run, f, fired):
        import scipy.special
        mod, name = (np, "outer") if f["name"] == "outer" else (scipy.special, f["name"])
        orig = getattr(mod, name)

        def g(*a, **k):
            import sys
            if not fired[0] and sys._getframe(1).f_code.co_filename.startswith(boot.PKG):
                fired[0] = True
                run.env.fired["special-%s-%s" % (f["name"], f["what"])] += 1
                raise EXC[f["what"]]("injected into " + f["name"])
            return orig(*a, **k)
        setattr(mod, name, g)
        return lambda: setattr(mod, name, orig)


def boot_excs():
    return (Exception, KeyboardInterrupt, SystemExit)


def tryf(f, x):
    try:
        return f(x)
    except ValueError:
        return np.zeros(0)


def same_pair(a, b):
    return all(x == y or (x != x and y != y) for x, y in zip(a, b))


# --------------------------------------------------------------------------
class Held:
    """Everything the caller keeps, with a snapshot."""

    def __init__(self, run):
        self.run, self.items, self.ids = run, [], {}

    def add(self, a, what):
        if isinstance(a, np.ndarray):
            if id(a) in self.ids:
                return
            self.items.append((a, a.copy(), what))
            self.ids[id(a)] = a

    def refresh(self, a):
        """The caller itself changed its array."""
        self.items = [(x, x.copy() if x is a else b, w) for x, b, w in self.items]

    def verify(self, after):
        for a, b, what in self.items:
            ok = a.shape == b.shape and a.tobytes() == b.tobytes()
            self.run.check(ok, "changed", lambda: "%s changed during %s" % (what, after))


class C14(Prop):
    id = "C14"
    quick, thorough = 6600, 50000 * 4
    rule = ("one run = up to 7 operations (some failing) on one or two solvers while the caller keeps every array and list it gave or "
            "was handed, all compared with snapshots after each operation; the nonlinear function may return constants, memoised "
            "arrays, views or its own argument; or up to 9 transform, grid, derivative and model calls whose arguments and results are "
            "kept the same way; non-trivial when at least two operations completed")

    CALLS = ("ht", "iht", "dx_rfft", "dx_fft", "dx_cheb", "kdv", "burgers", "allen_cahn", "soliton", "multi", "mirror", "grid_rfft",
             "grid_fft", "grid_cheb", "grid_dx", "grid_hankel", "nr", "rmax")

    def gen_functions(self, g):
        ops = []
        for _ in range(g.r.randint(2, 9)):
            o = {"op": g.pick(*self.CALLS), "seed": g.r.randint(0, 9999), "dtype": g.pick("float", "float", "complex", "complex", "single"),
                 "shape": g.pick(1, 1, 2), "layout": g.pick("C", "C", "strided", "F"), "readonly": g.chance(.3), "n": g.pick(0, 1, 1, 2, 3, 4),
                 "axis": g.pick(-1, 0, 1), "scribble": g.chance(.3)}
            if g.chance(.15):
                o["faults"] = [{"kind": "line", "n": g.r.randint(1, 15), "what": g.pick("kbd", "mem")}]
            ops.append(o)
        return {"kind": "functions", "n": 2 * g.r.randint(3, 8), "ops": ops}

    def functions(self, run):
        s = run.scen
        n = s["n"]
        held = Held(run)
        x, kx = grids.construct_x_kx_rfft(n, 0.0, 3.0)
        xf, kf = grids.construct_x_kx_fft(n, 0.0, 3.0)
        xc, D = grids.construct_x_dx_cheb(n - 1, -1.0, 2.0)
        T = transforms.HankelTransform(n, 2.0)
        ops = {"kdv": models.kdv_ops(kx), "burgers": models.burgers_ops(kx, .1), "allen_cahn": models.allen_cahn_ops(xc, D, .01)}
        for a, w in ((x, "x"), (kx, "kx"), (xf, "x (fft)"), (kf, "kx (fft)"), (xc, "x (cheb)"), (D, "differentiation matrix")):
            held.add(a, w)
        for k in sorted(ops):
            held.add(ops[k][0], "linear operator of " + k)
        done = []

        def array(o, m, cplx=None):
            r = np.random.default_rng(o["seed"])
            shape = (m,) if o["shape"] == 1 else (m, 3)
            a = r.uniform(-1, 1, shape)
            dt = o["dtype"] if cplx is None else ("complex" if cplx else "float")
            if dt == "complex":
                a = a + 1j * r.uniform(-1, 1, shape)
            elif dt == "single":
                a = a.astype(np.float32)
            if o["layout"] == "strided":
                b = np.zeros((2 * shape[0],) + shape[1:], dtype=a.dtype)
                b[::2] = a
                held.add(b, "buffer")
                a = b[::2]
            elif o["layout"] == "F":
                a = np.asfortranarray(a)
            if o["readonly"]:
                a.flags.writeable = False
            return a

        def call(o):
            k = o["op"]
            if k in ("ht", "iht"):
                a = array(o, T.nr)
                held.add(a, "argument of " + k)
                return getattr(T, k)(a)
            if k in ("nr", "rmax"):
                r = random.Random(o["seed"])
                setattr(T, k, r.randint(4, 12) if k == "nr" else r.uniform(.5, 3))
                return None
            if k.startswith("dx_"):
                a = array(dict(o, shape=o["shape"] if k == "dx_cheb" else 1), n, {"dx_rfft": False, "dx_fft": True}.get(k))
                held.add(a, "argument of " + k)
                return getattr(derivatives, k)({"dx_rfft": kx, "dx_fft": kf, "dx_cheb": D}[k], a, o["n"])
            if k in ops:
                m = n // 2 + 1 if k != "allen_cahn" else ops[k][0].shape[0]
                a = array(dict(o, shape=1), m, True if k != "allen_cahn" else None)
                held.add(a, "argument of the nonlinear function of " + k)
                return ops[k][1](a)
            if k == "soliton":
                return models.kdv_soliton(x, .7, .3, .1)
            if k == "multi":
                amp, at = [.5, 1.0], [-1.0, .4]
                v = models.kdv_multi_soliton(x, amp, at, .1)
                run.check(amp == [.5, 1.0] and at == [-1.0, .4], "changed", "lists given to kdv_multi_soliton changed")
                return v
            if k == "mirror":
                r = np.arange(1.0, n + 1)
                a = array(dict(o, shape=1 if o["axis"] == -1 else 2), n)
                if o["axis"] == 1:
                    a = a.T
                held.add(r, "radial grid")
                held.add(a, "argument of mirror_grid")
                return grids.mirror_grid(r, a, o["axis"])
            if k == "grid_rfft":
                return grids.construct_x_kx_rfft(n, 0.0, 3.0)
            if k == "grid_fft":
                return grids.construct_x_kx_fft(n, 0.0, 3.0)
            if k == "grid_cheb":
                return (grids.construct_x_cheb(n - 1, -1.0, 2.0),)
            if k == "grid_dx":
                return grids.construct_x_dx_cheb(n - 1, -1.0, 2.0)
            return grids.construct_r_kr_hankel(n, 2.0)[:3]

        for i, o in enumerate(s["ops"]):
            what = "call %d (%s)" % (i, o["op"])
            try:
                with run.env.op(o.get("faults")):
                    out = call(o)
            except (KeyboardInterrupt, MemoryError):
                out = None
            except Exception as e:  # noqa: BLE001
                run.check(False, "raise", lambda: "%s: %r" % (what, e))
            held.verify(what)
            run.log(o["op"], out is None)
            if out is None:
                continue
            done.append(o["op"])
            outs = out if isinstance(out, tuple) else (out,)
            same = o["op"].startswith("dx_") and o["n"] == 0
            for v in outs:
                for a, _, w in held.items:
                    run.check(same or not np.shares_memory(v, a), "own-array", lambda: "%s handed out memory of: %s" % (what, w))
            if not same:
                snap = [np.array(v) for v in outs]
                if o["scribble"]:       # the caller does with a result what it likes
                    for v in outs:
                        if v.flags.writeable:
                            v[...] = -7
                    held.verify(what + " and its result was overwritten")
                    again = call(dict(o)) if o["op"] not in ("nr", "rmax") else None
                    if again is not None:
                        again = again if isinstance(again, tuple) else (again,)
                        for a, b in zip(again, snap):
                            run.check(relerr(a, b) <= 1e-12, "own-array", lambda: "%s gives another result after the caller overwrote the first" % what)
                else:
                    for v in outs:
                        held.add(v, "result of " + what)
        run.nontrivial = len(done) >= 2

    def gen(self, g, tier):
        if g.chance(.15):
            return self.gen_functions(g)
        p = g.problem(nls=HARD, model_p=.1)
        ops = []
        for _ in range(g.r.randint(2, 7)):
            k = g.r.random()
            if k < .35:
                o = gen_evolve(g, p)
                o["tf"] = o["t0"] + (o["tf"] - o["t0"]) * .6
                if p["cls"] in CONSTANT:
                    o["h"] = min(o["h"], (o["tf"] - o["t0"]) / 2)
                o["u"] = g.pick("u0", "cur")
            elif k < .85:
                o = gen_step(g, p)
                if g.chance(.2):
                    o["u"] = "u0"
            elif k < .93:
                o = {"op": "reset"}
            else:
                o = setting_ops(g, p) or {"op": "reset"}
            if o["op"] in ("evolve", "step"):
                add_faults(g, p, o, .25)
            ops.append(o)
        return {"p": p, "ops": ops, "ret": g.pick("plain", "plain", "memo", "const", "view", "self", "mixed"), "readonly": g.chance(.35),
                "strided": g.chance(.2)}

    def simplify(self, s):
        for k, v in (("ret", "plain"), ("readonly", False), ("strided", False)):
            if s.get(k, v) != v:
                yield dict(s, **{k: v})
        yield from super().simplify(s)

    def execute(self, run):
        if run.scen.get("kind") == "functions":
            return self.functions(run)
        s, p = run.scen, run.scen["p"]
        held = Held(run)
        base = pure_nl(p)
        memo, state = {}, {"n": 0, "buf": None, "const": None}
        ret = s["ret"]

        def nl(u):
            k = state["n"]
            state["n"] += 1
            mode = ret if ret != "mixed" else ("plain", "self", "memo", "view", "const")[k % 5]
            if mode == "self":
                v = u
            elif mode == "const":
                if state["const"] is None:
                    state["const"] = np.asarray(base(u)).astype(complex)
                v = state["const"]
            elif mode == "memo":
                key = u.tobytes()
                if key not in memo:
                    memo[key] = np.asarray(base(u))
                v = memo[key]
            elif mode == "view":
                w = np.asarray(base(u))
                b = np.zeros((2,) + w.shape, dtype=w.dtype)
                b[1] = w
                v = b[1]
            else:
                v = np.asarray(base(u))
            if s["readonly"] and mode != "self":
                v.flags.writeable = False
            if len(held.items) < 700:
                held.add(v, "array returned by nonlinear call %d" % k)
            return v
        lin = np.array(lin_op(p))
        u0 = np.array(u_init(p))
        if s["strided"]:
            big = np.zeros(2 * u0.size, dtype=u0.dtype)
            big[::2] = u0
            u0 = big[::2]
            held.add(big, "buffer behind the initial state")
        if s["readonly"]:
            lin.flags.writeable = False
            u0.flags.writeable = False
        held.add(lin, "linear operator")
        held.add(u0, "initial state")
        A = Client(run, p, "a", pure=nl, lin=lin, u0=u0)
        lists = []
        done = 0
        for i, o in enumerate(s["ops"]):
            out = A.do(o)
            what = "op %d (%s)" % (i, o["op"])
            held.verify(what)
            for lst, snap, w in lists:
                run.check(len(lst) == len(snap) and all(x is y for x, y in zip(lst, snap)), "history", lambda: "%s changed during %s" % (w, what))
            if out["kind"] == "ok" and o["op"] in ("step", "evolve"):
                done += 1
                held.add(out["u"], "state returned by " + what)
            if o["op"] == "evolve":
                t, us = A.solver.t, A.solver.u
                # the interrupted call may not have begun: then these are the old lists
                if not any(l is t for l, _, _ in lists):
                    lists.append((t, list(t), "times of " + what))
                if not any(l is us for l, _, _ in lists):
                    lists.append((us, list(us), "states of " + what))
                    for k, x in enumerate(us):
                        held.add(x, "state %d stored by %s" % (k, what))
                    for k in range(1, len(us)):
                        run.check(us[k] is not us[k - 1] and not np.shares_memory(us[k], us[k - 1]), "own-array",
                                  lambda k=k: "states %d and %d stored by %s share memory" % (k - 1, k, what))
            # what is returned must not be the caller's initial state in disguise
            if out["kind"] == "ok" and o["op"] == "step":
                run.check(not np.shares_memory(out["u"], lin), "own-array", "%s returned the operator's memory" % what)
                if ret in ("memo", "const", "view", "plain"):
                    for a, _, w in held.items:
                        if w.startswith("array returned") and np.shares_memory(out["u"], a):
                            run.check(False, "own-array", "%s returned memory of an %s" % (what, w))
        run.nontrivial = done >= 2


# --------------------------------------------------------------------------
class C15(Threaded):
    id = "C15"
    quick, thorough = 9600, 30000 * 4
    rule = ("one run = 2-4 model operators, profiles or derivative functions called up to 5 times each, in sequence or under a "
            "line-level thread schedule, every result kept and compared with an independent formula and with the call made alone; "
            "non-trivial when at least two calls on different objects were interleaved")
    real = "models, derivatives, grids, NumPy FFT"
    stub = "thread scheduler"

    KINDS = ("kdv", "burgers", "burgers", "allen_cahn", "soliton", "multi", "dx_rfft", "dx_fft", "dx_cheb")

    def gen(self, g, tier):
        clients = []
        n0 = g.pick(8, 16, 10)
        for _ in range(g.pick(2, 2, 3, 4)):
            k = g.pick(*self.KINDS)
            c = {"kind": k, "n": n0 if g.chance(.5) else g.pick(6, 8, 16, 32), "a": g.pick(-math.pi, 0.0, -5.0), "len": g.pick(2 * math.pi, 10.0, 1.0),
                 "mu": g.logu(-3, 0), "ops": []}
            for _ in range(g.r.randint(1, 5)):
                c["ops"].append({"seed": g.r.randint(0, 10 ** 6), "order": g.pick(1, 1, 2, 2, 3, 0), "dim2": g.chance(.3), "same": g.chance(.2), "refill": g.chance(.2)})
                if k.startswith("dx") and g.chance(.25):      # the program stretches its grid, in place
                    c["ops"][-1]["stretch"] = g.pick(.5, 2.0, 3.0)
            if clients and g.chance(.5):      # the same operator again: overlapping calls of one closure
                c = dict(clients[0], ops=c["ops"])
            clients.append(c)
        s = {"kind": g.pick("seq", "threads", "threads"), "clients": clients}
        if s["kind"] == "threads":
            s["sched"] = gen_sched(g)
        else:
            order = [i for i, c in enumerate(clients) for _ in c["ops"]]
            g.r.shuffle(order)
            s["order"] = order
        s["shared"] = g.chance(.6)
        return s

    def build(self, c, memo=None):
        k, n = c["kind"], c["n"]
        a, b = c["a"], c["a"] + c["len"]
        key = (k, n, a, b, c["mu"]) if memo is not None else None
        if memo is not None and key in memo:
            return memo[key]
        o = {}
        if k in ("kdv", "burgers", "dx_rfft"):
            x, kx = grids.construct_x_kx_rfft(n, a, b)
            o["x"], o["kx"] = x[:n], kx
            if k == "kdv":
                o["L"], o["f"] = models.kdv_ops(kx)
            elif k == "burgers":
                o["L"], o["f"] = models.burgers_ops(kx, c["mu"])
        elif k == "dx_fft":
            x, o["kx"] = grids.construct_x_kx_fft(n, a, b)
            o["x"] = x[:n]
        elif k in ("allen_cahn", "dx_cheb"):
            o["x"], o["D"] = grids.construct_x_dx_cheb(n, a, b)
            if k == "allen_cahn":
                o["L"], o["f"] = models.allen_cahn_ops(o["x"], o["D"], c["mu"])
        else:
            o["x"] = np.linspace(a, b, n)
        if memo is not None:
            memo[key] = o
        return o

    def call(self, c, o, obj):
        """Returns (argument, thunk, expected by an independent formula)."""
        r = random.Random(o["seed"])
        n, k = c["n"], c["kind"]
        plain = o["seed"] % 3 == 0          # default arguments

        def rnd(m, cplx=False):
            v = np.array([r.uniform(-1, 1) for _ in range(m)])
            return v + 1j * np.array([r.uniform(-1, 1) for _ in range(m)]) if cplx else v
        if k in ("kdv", "burgers"):
            uf = np.fft.rfft(rnd(n))
            u = np.fft.irfft(uf)
            ux = np.fft.irfft(1j * obj["kx"] * uf)
            return [uf], (lambda: obj["f"](uf)), np.fft.rfft(u * ux) * (-6.0 if k == "kdv" else -1.0)
        if k == "allen_cahn":
            u = rnd(n - 1)
            xi = obj["x"][1:-1].ravel()
            w = u + xi
            return [u], (lambda: obj["f"](u)), xi - w * w * w
        if k == "soliton":
            am, x0, t = r.uniform(.3, 2), r.uniform(-1, 1), r.uniform(0, 2)
            x = obj["x"]
            if plain:
                return [x], (lambda: models.kdv_soliton(x, am, x0)), .5 * am * am / np.cosh(.5 * am * (x - x0)) ** 2
            return [x], (lambda: models.kdv_soliton(x, am, x0, t)), .5 * am * am / np.cosh(.5 * am * (x - x0 - am * am * t)) ** 2
        if k == "multi":
            am, x0, t = [r.uniform(.3, 2) for _ in range(3)], [r.uniform(-1, 1) for _ in range(3)], r.uniform(0, 2)
            x = obj["x"]
            if plain:
                t = 0.0
            e = sum(.5 * q * q / np.cosh(.5 * q * (x - y - q * q * t)) ** 2 for q, y in zip(am, x0))
            A, X = np.array(am), np.array(x0)
            return [x, A, X], (lambda: models.kdv_multi_soliton(x, A, X, *([] if plain else [t]))), e
        m = o["order"]
        arg = [] if m == 1 and plain else [m]
        if k == "dx_rfft":
            u = rnd(n)
            e = np.fft.irfft((1j * obj["kx"]) ** m * np.fft.rfft(u), n=n) if m else u
            return [u, obj["kx"]], (lambda: derivatives.dx_rfft(obj["kx"], u, *arg)), e
        if k == "dx_fft":
            u = rnd(n, True)
            e = np.fft.ifft((1j * obj["kx"]) ** m * np.fft.fft(u)) if m else u
            return [u, obj["kx"]], (lambda: derivatives.dx_fft(obj["kx"], u, *arg)), e
        u = rnd(n + 1)
        if o["dim2"]:
            u = np.outer(u, rnd(3))
        e = u
        for _ in range(m):
            e = obj["D"] @ e
        return [u, obj["D"]], (lambda: derivatives.dx_cheb(obj["D"], u, *arg)), e

    def execute(self, run):
        s = run.scen
        memo = {} if s["shared"] else None
        if not s["clients"]:
            return
        objs = [None] * len(s["clients"])
        held = Held(run)
        results = []
        last = {}

        def do(i, o):
            c = s["clients"][i]
            if objs[i] is None:
                objs[i] = self.build(c, memo)
                for name in ("x", "kx", "D", "L"):
                    if name in objs[i]:
                        held.add(objs[i][name], "%s of %s %d" % (name, c["kind"], i))
            if o.get("stretch") and s["kind"] == "seq":
                for name, f in (("D", 1 / o["stretch"]), ("kx", 1 / o["stretch"]), ("x", o["stretch"])):
                    if name in objs[i]:
                        objs[i][name] *= f
                        held.refresh(objs[i][name])
                last.clear()
            if o["same"] and i in last:
                args, thunk, want, o = last[i]
            elif o.get("refill") and i in last and c["kind"] in ("kdv", "burgers", "allen_cahn"):
                # the program reuses its own array for the next argument
                args, thunk, _, _ = last[i]
                new, _, want = self.call(c, o, objs[i])
                args[0][...] = new[0]
                held.refresh(args[0])
            else:
                args, thunk, want = self.call(c, o, objs[i])
                for a in args:
                    held.add(a, "argument of %s %d" % (c["kind"], i))
            last[i] = (args, thunk, want, o)
            v = thunk()
            what = "%s %d, seed %d" % (c["kind"], i, o["seed"])
            sc = float(np.max(np.abs(want), initial=0)) + float(max(np.max(np.abs(a), initial=0) for a in args[:1]))
            if c["kind"] == "dx_cheb" and o["order"] > 1:
                sc *= float(np.linalg.norm(objs[i]["D"], 2))
            run.check(np.shape(v) == np.shape(want), "value", lambda: "%s: shape %s, expected %s" % (what, np.shape(v), np.shape(want)))
            e = float(np.max(np.abs(v - want), initial=0))
            run.check(e <= 1e-9 * sc * (1 + float(np.max(np.abs(objs[i].get("kx", [0]))) ** o["order"])) , "value",
                      lambda: "%s: value is off by %.3g" % (what, e))
            if not (o["order"] == 0 and c["kind"].startswith("dx")):
                for a in args:
                    run.check(not np.shares_memory(v, a), "alias", lambda: "%s: the result shares memory with an argument" % what)
                for w, _, _ in held.items:
                    run.check(not np.shares_memory(v, w), "alias", lambda: "%s: the result shares memory with an earlier one" % what)
            held.add(v, "result of " + what)
            results.append((i, what, v.copy()))
            return v
        n = len(s["clients"])
        if s["kind"] == "threads":
            def body(i):
                def f():
                    for o in s["clients"][i]["ops"]:
                        do(i, o)
                return f
            sc = run_sched(run, s, [body(i) for i in range(n)])
            for i, e in sorted(sc.errors.items()):
                raise e
            run.nontrivial = len(sc.switches) > 2
        else:
            pos = [0] * n
            for i in s["order"]:
                if i < n and pos[i] < len(s["clients"][i]["ops"]):
                    do(i, s["clients"][i]["ops"][pos[i]])
                    pos[i] += 1
            run.key = str(s["order"])
            run.nontrivial = n > 1
        held.verify("later calls")
        for i, what, v in sorted(results, key=lambda r: (r[0], r[1])):
            run.log(i, what, v)
        for c in s["clients"]:
            run.real[c["kind"]] += 1


# --------------------------------------------------------------------------
NAN, INF = math.nan, math.inf
VALID = {"epsilon": [1e-4, 1e-9, 1, 5.0, 1e-300, 1e-13, 3e-13], "incr_f": [1.01, 1.25, 4, 100.0], "decr_f": [.85, .5, .999], "safety_f": [.8, 1.0, 1, .1],
         "adapt_cutoff": [.01, 0.0, 0, .99], "minh": [1e-16, 1e-3, 1, 1e-18, 1e-300], "modecutoff": [.01, 1.0, .5, 1e-9, 1e-15], "contour_points": [2, 3, 32, 64],
         "contour_radius": [1.0, .5, 2, 1e-3]}
BAD = {"epsilon": [0, 0.0, -1e-9, NAN, -INF], "incr_f": [1.0, 1, .5, -2, NAN, -INF], "decr_f": [1.0, 1, 1.5, INF, NAN], "safety_f": [1.0001, 2, INF, NAN],
       "adapt_cutoff": [1.0, 1, 2.0, INF, NAN], "minh": [0, 0.0, -1e-20, NAN, -INF], "modecutoff": [0, 0.0, -1, 1.0001, 2, INF, NAN],
       "contour_points": [1, 0, -3, 2.0, 3.5, NAN], "contour_radius": [0, 0.0, -1.0, NAN, -INF]}
LIMIT = {"epsilon": lambda v: v > 0, "incr_f": lambda v: v > 1, "decr_f": lambda v: v < 1, "safety_f": lambda v: v <= 1,
         "adapt_cutoff": lambda v: v < 1, "minh": lambda v: v > 0, "modecutoff": lambda v: 0 < v <= 1, "contour_radius": lambda v: v > 0}
WRONG = ["x", None, [1.0], {"a": 1}, "0.5"]
ASKS = list(ADAPTIVE) + ["ETD4", "ETD5"]


class C16(Prop):
    id = "C16"
    quick, thorough = 6600, 50000 * 4
    rule = ("one run = up to 14 assignments (valid, boundary, NaN, inf, wrong type) to a settings object against a model, or a running "
            "solver whose settings are assigned invalid values before, between and inside steps, or whose ETD settings change between "
            "steps; non-trivial when at least one assignment was refused or took effect in mid-run")

    def assign(self, g, names):
        n = g.pick(*names)
        k = g.r.random()
        if k < .08 and n != "contour_points":      # nearly what it is
            return {"name": n, "v": None, "ok": True, "rel": g.pick(1 + g.logu(-15, -1), 1 - g.logu(-15, -1), .5, 2.0)}
        if k < .4:
            return {"name": n, "v": g.pick(*VALID[n]), "ok": True}
        if k < .88:
            return {"name": n, "v": g.pick(*BAD[n]), "ok": False}
        return {"name": n, "v": g.pick(*WRONG), "ok": False}

    NAMES = {"SolverConfig": ["epsilon", "incr_f", "decr_f", "safety_f", "adapt_cutoff", "minh"],
             "ETDConfig": ["modecutoff", "contour_points", "contour_radius"]}
    DEFAULT = {"epsilon": 1e-4, "incr_f": 1.25, "decr_f": .85, "safety_f": .8, "adapt_cutoff": .01, "minh": 1e-16,
               "modecutoff": .01, "contour_points": 32, "contour_radius": 1.0}

    def gen(self, g, tier):
        k = g.r.random()
        if k < .4:
            c = g.pick("SolverConfig", "SolverConfig", "ETDConfig")
            names = self.NAMES[c]
            init = {}
            for n in names:
                if g.chance(.3):
                    init[n] = g.pick(*VALID[n])
            bad = None
            if g.chance(.25):
                bad = self.assign(g, names)
                if "rel" in bad:
                    bad = None
            return {"kind": "object", "cls": c, "init": init, "bad": bad, "assign": [self.assign(g, names) for _ in range(g.r.randint(1, 14))]}
        if k < .75:
            cls = g.pick(*ASKS)
            p = g.problem(cls=cls, nls=HARD)
            objs = (["config"] if cls in ADAPTIVE else []) + (["etd_config"] if IS_ETD[cls] else [])
            ops = []
            for _ in range(g.r.randint(1, 5)):
                o = gen_step(g, p) if g.chance(.75) else gen_evolve(g, p)
                w = []
                for _ in range(g.r.randint(0, 4)):
                    ob = g.pick(*objs)
                    a = self.assign(g, self.NAMES["SolverConfig" if ob == "config" else "ETDConfig"])
                    while a["ok"]:
                        a = self.assign(g, self.NAMES["SolverConfig" if ob == "config" else "ETDConfig"])
                    w.append(dict(a, obj=ob, at=g.pick(-1, 0, 1, 2, 3, 4, 5, 6, 9, 14)))
                o["assign"] = w
                ops.append(o)
            return {"kind": "refused", "p": p, "ops": ops}
        if g.chance(.4):
            return self.gen_handle(g)
        cls = g.pick("ETD34", "ETD35", "ETD4", "ETD5")
        p = g.problem(cls=cls, form=g.pick("diag", "diag", "full") if cls in ("ETD4", "ETD5") else g.pick("diag", "diag", "eig", "full"),
                      nls=["poly", "trig", "sat", "lin"], defaults_ok=False)
        if p["form"] == "full":
            p["etd"]["contour_radius"] = 2.5
        ops = []
        for _ in range(g.r.randint(1, 4)):
            ops.append(gen_step(g, p, near=False))
            n = g.pick("contour_points", "contour_points", "contour_radius", "modecutoff")
            v = g.pick(3, 4, 5, 6) if n == "contour_points" else g.pick(2.0, .5, 3.0, 1.0) if n == "contour_radius" else g.pick(.9, 1.0, 1e-3, .3)
            if p["form"] == "full" and n == "contour_radius":
                v = g.pick(2.5, 3.0, 4.0)
            ops.append({"op": "set", "obj": "etd_config", "name": n, "value": v})
        if cls in ADAPTIVE:
            p["config"] = dict(p["config"], epsilon=1e6, safety_f=1.0)  # everything is accepted: coarse contours stay visible
        ops.append(gen_step(g, p, near=False))
        for o in ops:
            if o["op"] == "step":
                o["h"] = g.h(p)
        return {"kind": "effect", "p": p, "ops": ops}

    def gen_handle(self, g):
        """One to three solvers given the same settings objects, which the program keeps and changes."""
        n = g.pick(1, 2, 2, 3)
        ps = [g.problem(cls=g.pick(*ASKS), nls=HARD + ["wall", "domain", "wall"], tau=1.0, defaults_ok=False, nmax=3) for _ in range(n)]
        if any(p["form"] == "full" for p in ps):
            e = g.etd(True)
        else:
            e = g.etd(False)
        c = g.config()
        for p in ps:
            p["config"], p["etd"] = c, e
        ops = []
        for _ in range(g.r.randint(2, 10)):
            if g.chance(.5):
                ops.append({"op": "step", "on": g.r.randint(0, n - 1), "h": g.h(ps[0])})
            elif g.chance(.7):
                k = g.pick(*self.NAMES["SolverConfig"])
                v = g.config()[k]
                if k == "minh":
                    v = g.pick(v, 1e-3, 1e-2, .03, .1, .3)
                ops.append({"op": "set", "obj": "config", "name": k, "value": v, "via": g.r.randint(-1, n - 1)})
            else:
                k = g.pick("contour_points", "modecutoff")
                ops.append({"op": "set", "obj": "etd_config", "name": k, "value": g.pick(24, 32, 48) if k == "contour_points" else g.pick(.05, .1, .3),
                            "via": g.r.randint(-1, n - 1)})
        ops += [{"op": "step", "on": i, "h": g.h(ps[0])} for i in range(n)]
        return {"kind": "handle", "clients": [{"p": p} for p in ps], "ops": ops}

    def handle(self, run):
        s = run.scen
        if not s["clients"]:
            return
        p0 = s["clients"][0]["p"]
        C, E = SolverConfig(**p0["config"]), ETDConfig(**p0["etd"])
        cs = [Client(run, c["p"], "c%d" % i, config=C, etd=E) for i, c in enumerate(s["clients"])]
        cfg, etd = dict(p0["config"]), dict(p0["etd"])
        changed = False
        for i, o in enumerate(s["ops"]):
            if o["op"] == "set":
                obj = C if o["obj"] == "config" else E
                if 0 <= o["via"] < len(cs):
                    obj = getattr(cs[o["via"]].solver, o["obj"], obj)
                setattr(obj, o["name"], o["value"])
                (cfg if o["obj"] == "config" else etd)[o["name"]] = o["value"]
                changed = True
                continue
            if o["on"] >= len(cs):
                continue
            A = cs[o["on"]]
            u = A.u
            a = A.do({"op": "step", "h": o["h"]})
            F = Client(run, dict(A.p, config=cfg, etd=etd), "f%d" % i)
            F.u = u
            f = F.do({"op": "step", "h": o["h"]})
            same_step(run, a, f, "effect", "op %d: step of solver %d against a new solver with the settings %s %s" % (i, o["on"], cfg, etd))
            if a["kind"] != "ok":
                return
            if changed:
                run.nontrivial = True
        for c in cs:
            for name, want in (("config", cfg), ("etd_config", etd)):
                have = settings_of(c.solver).get(name)
                run.check(have is None or have == want, "effect", lambda: "%s of solver %s is %s, expected %s" % (name, c.cid, have, want))

    def execute(self, run):
        k = run.scen["kind"]
        if k == "object":
            self.object(run)
        elif k == "handle":
            self.handle(run)
        elif k == "refused":
            self.refused(run)
        else:
            self.effect(run)

    def object(self, run):
        s = run.scen
        C = SolverConfig if s["cls"] == "SolverConfig" else ETDConfig
        if s["bad"] and not s["bad"]["ok"]:
            kw = dict(s["init"], **{s["bad"]["name"]: s["bad"]["v"]})
            try:
                C(**kw)
                ok = True
            except Exception:
                ok = False
            run.check(not ok, "accepted", lambda: "%s(%s=%r) was accepted" % (s["cls"], s["bad"]["name"], s["bad"]["v"]))
        other = C()
        default = {n: self.DEFAULT[n] for n in self.NAMES[s["cls"]]}
        for n in default:
            run.check(getattr(other, n) == default[n], "value", lambda n=n: "new %s: %s is %r, its default is %r" % (
                s["cls"], n, getattr(other, n), default[n]))
        c = C(**s["init"])
        model = dict(default, **s["init"])
        for i, a in enumerate(s["assign"]):
            if "rel" in a:
                v = model[a["name"]] * a["rel"]
                a = dict(a, v=v, ok=LIMIT[a["name"]](v))
            try:
                setattr(c, a["name"], a["v"])
                ok = True
            except Exception:
                ok = False
            run.log(a["name"], repr(a["v"]), ok)
            what = "assignment %d, %s = %r" % (i, a["name"], a["v"])
            run.check(ok or not a["ok"], "refused", lambda: what + ": refused")
            run.check(not ok or a["ok"], "accepted", lambda: what + ": accepted")
            if ok:
                model[a["name"]] = a["v"]
            else:
                run.nontrivial = True
            for n in model:
                run.check(getattr(c, n) == model[n], "value", lambda n=n: "%s: %s is %r, expected %r" % (what, n, getattr(c, n), model[n]))
            for n in default:
                run.check(getattr(other, n) == default[n], "value", lambda n=n: "%s: %s of another object became %r" % (what, n, getattr(other, n)))

    def refused(self, run):
        s, p = run.scen, run.scen["p"]
        box = {}

        def attempt(w):
            try:
                setattr(getattr(box["A"].solver, w["obj"]), w["name"], w["v"])
                box["bad"] = w
            except Exception:
                run.probe["refused in mid-run"] += 1
                run.nontrivial = True

        def hook(k, u):
            for w in box.get("watch", ()):
                if w["at"] == k - box["base"]:
                    attempt(w)
        A = box["A"] = Client(run, p, "a", hook=hook)
        B = Client(run, p, "b")
        for i, o in enumerate(s["ops"]):
            for w in o["assign"]:
                if w["at"] < 0:
                    attempt(w)
            box["watch"], box["base"] = [w for w in o["assign"] if w["at"] >= 0], run.env.calls["a"]
            a = A.do(o)
            box["watch"] = []
            b = B.do(o)
            run.check("bad" not in box, "accepted", lambda: "op %d: %s = %r was accepted" % (i, box["bad"]["name"], box["bad"]["v"]))
            what = "op %d with refused assignments" % i
            if o["op"] == "evolve":
                same_evolve(run, a, b, "disturbed", what)
            else:
                same_step(run, a, b, "disturbed", what)
            run.check(settings_of(A.solver) == settings_of(B.solver), "disturbed", lambda: what + ": settings changed")
            if a["kind"] != "ok":
                break

    def effect(self, run):
        s, p = run.scen, run.scen["p"]
        A = Client(run, p, "a")
        etd = dict(p["etd"] or {})
        for i, o in enumerate(s["ops"]):
            if o["op"] == "set":
                A.do(o)
                etd[o["name"]] = o["value"]
                continue
            u = A.u
            a = A.do(o)
            if a["kind"] != "ok":
                return
            F = Client(run, dict(p, etd=etd), "f%d" % i)
            F.u = u
            f = F.do({"op": "step", "h": a["h"]})
            if f["kind"] != "ok" or abs(f["h"] - a["h"]) > 1e-13 * a["h"] or not finite(f["u"]):
                continue
            e = relerr(a["u"], f["u"])
            run.check(e <= 1e-10, "effect", lambda: "op %d: step with ETD settings %s differs from a new solver's with them by %.3g" % (i, etd, e))
            if i:
                run.nontrivial = True
