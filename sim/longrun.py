"""C19: what a long run keeps alive."""
import ctypes
import gc
import sys
import warnings
import weakref

import numpy as np

from base import Prop
from boot import ADAPTIVE, ETDConfig, SolverConfig, STAGES, derivatives, grids, models, transforms
from core import HARD
from problems import make_solver, u_init
from simlib import BAD, Client, cp, d

PARTS = 5
GOLD = 0.6180339887498949


class _Mallinfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks",
                                               "fordblks", "keepcost")]


_mallinfo = ctypes.CDLL(None).mallinfo2
_mallinfo.restype = _Mallinfo


def held():
    """Bytes in use in the C allocator (all array data), and the number of Python objects."""
    gc.collect()
    m = _mallinfo()
    return m.uordblks + m.hblkhd, sys.getallocatedblocks()


class C19(Prop):
    id = "C19"
    quick, thorough = 950, 7200 * 4
    rule = ("one run = one kind of work repeated on arrays large enough to be told from noise - steps of ever new sizes, with rejected "
            "and failing attempts; a long evolve; evolve after evolve; solvers, transforms, grids and operators made and dropped - "
            "with the bytes held read by the allocator's own accounting at six moments; non-trivial when all six were reached")
    real = "all package code, NumPy and SciPy, the memory allocators' own accounting"

    def gen(self, g, tier):
        k = g.r.random()
        if k < .12:
            return {"kind": "objects", "what": g.pick("hankel-new", "hankel-nr", "hankel-rmax", "grids", "derivs", "models", "soliton", "settings"),
                    "ops": [{"n": g.r.randint(40, 60)}], "frac": round(g.r.random(), 6)}
        p = g.problem(nls=HARD, model_p=0)
        # three sizes below the noise are no use: repeat the components
        size = {"diag": 40, "eig": 24, "full": 12}[p["form"]]
        rep = max(1, -(-size // len(p["u0"])))
        p.update(lam=p["lam"] * rep, u0=p["u0"] * rep, n=len(p["u0"]) * rep)
        if p.get("mat"):
            p["mat"] = g.pick(None, {"seed": g.r.randint(0, 9999), "kind": "orth"})
        p["etd"] = dict(p["etd"] or {}, contour_points=g.pick(8, 16)) if p["form"] == "full" else p["etd"]
        if k < .26:
            ops = []
            for _ in range(g.r.randint(2, 5)):
                n = g.r.randint(1, 40)
                o = {"op": g.pick("evolve", "evolve", "evolve", "reset"), "n": n, "store": g.chance(.8), "freq": g.pick(1, 1, 2, 3), "steps": g.pick(0, 0, 1, 3)}
                if o["op"] == "evolve" and g.chance(.25):
                    o["faults"] = [{"kind": "nl", "at": g.r.randint(0, n * STAGES[p["cls"]]), "len": 1, "what": g.pick("fault", "kbd", "mem")}]
                ops.append(o)
            return {"kind": "replaced", "p": p, "ops": ops, "h": g.h(p, -2.3, -1.3)}
        kind = "steps" if k < .5 else "evolve" if k < .68 else "evolves" if k < .85 else "make"
        n = g.r.randint(40, 60) if p["form"] != "full" else g.r.randint(20, 26)
        s = {"kind": kind, "p": p, "ops": [{"n": n}], "h": g.h(p, -2.3, -.3), "frac": round(g.r.random(), 6),
             "wipe": g.chance(.3), "spread": g.pick(0.0, .3, .9, 3.0), "freq": g.pick(1, 2, 5), "store": g.chance(.5),
             "every": g.pick(0, 0, 2, 3, 5), "fault": g.pick("fault", "kbd", "mem", "nan", "nan1", "none", "bad", "reset")}
        return s

    def size(self, s, i):
        """An ever new step size."""
        return s["h"] * (1 + s["spread"] * ((i * GOLD + s["frac"]) % 1.0))

    def execute(self, run):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")     # a warning shown keeps the source file in memory
            getattr(self, run.scen["kind"])(run, run.scen)

    def repeat(self, run, work, n, what):
        """Work n times, then read what is held after every part of what follows."""
        for i in range(n):
            work(i)
        part = max(6, n // 4)
        seen = []
        for j in range(PARTS + 1):
            work(-1)        # leaves the same things behind each time
            seen.append(held() + (0,))
            for i in range(n + j * part, n + (j + 1) * part if j < PARTS else 0):
                work(i)
        self.grown(run, seen, part, what)

    def grown(self, run, seen, part, what, each=0):
        """All periods but the one of most growth: what happens once (a table enlarged) is no leak."""
        inc = [(b[0] - a[0] - each * (b[2] - a[2]), b[1] - a[1] - 8 * (b[2] - a[2])) for a, b in zip(seen, seen[1:])]
        run.probe[what.split(":")[0]] += 1
        for i, name, room in ((0, "bytes", 300 + 100 * part), (1, "objects", 200 * part)):
            x = sum(sorted(v[i] for v in inc)[:-1]) // (PARTS - 1)
            run.probe["%s: %s" % (name, "none" if x <= 0 else "under half the allowance" if x < room / 2 else "more")] += 1
            run.check(x <= room, "grows", lambda: "%s: %d times, %d more %s held, on average over %d such periods" % (what, part, x, name, PARTS - 1))
        run.nontrivial = True
        run.log(what, part)

    def steps(self, run, s):
        C = Client(run, s["p"])

        def work(i):
            h = self.size(s, i)
            o = {"op": "step", "h": h}
            if s["every"] and i % s["every"] == 0:
                f = s["fault"]
                if f == "bad":
                    o["bad"] = BAD[i % 4]
                elif f == "reset":
                    C.do({"op": "reset"})
                else:
                    o["faults"] = [{"kind": "nl", "at": i % STAGES[s["p"]["cls"]], "len": 1, "what": f}]
            r = C.do(o)
            if r["kind"] != "ok" or not np.all(np.isfinite(r["u"])) or s["wipe"] and i % 7 == 6:
                C.u = C.u0
                if s["wipe"]:
                    C.solver.reset()
        self.repeat(run, work, s["ops"][0]["n"], "steps: %s/%s" % (s["p"]["cls"], s["p"]["form"]))

    def evolve(self, run, s):
        """Bytes held while one evolve runs, read inside the nonlinear function."""
        p = s["p"]
        n, part = (x * STAGES[p["cls"]] for x in (s["ops"][0]["n"], max(6, s["ops"][0]["n"] // 4)))
        seen = []
        X = []

        def hook(k, u):
            if k >= n and (k - n) % part == 0 and len(seen) <= PARTS:
                seen.append(held() + (len(X[0].solver.t),))
        C = Client(run, p, hook=hook)
        X.append(C)
        h = s["h"] / 4
        C.do({"op": "evolve", "t0": 0.0, "tf": h * 4 * s["ops"][0]["n"], "h": h, "store": s["store"], "freq": s["freq"]},
             limit=n + PARTS * part + 2)
        if len(seen) <= PARTS:
            run.probe["ended early"] += 1
            return
        if C.adaptive and not s["store"]:
            run.check(seen[-1][2] <= 1, "stored", lambda: "%d states stored, none asked for" % seen[-1][2])
        self.grown(run, seen, part, "evolve: %s/%s" % (p["cls"], p["form"]), 16 * len(p["u0"]) + 80)

    def evolves(self, run, s):
        C = Client(run, s["p"])
        many = {"diag": 6, "eig": 4, "full": 2}[s["p"]["form"]]

        def work(i):
            h = self.size(s, i)
            o = {"op": "evolve", "t0": 0.0, "tf": many * h * 1.01, "h": h, "store": s["store"], "freq": s["freq"]}
            if s["every"] and i % s["every"] == 0 and s["fault"] not in ("bad", "reset"):
                o["faults"] = [{"kind": "nl", "at": i % (3 * STAGES[s["p"]["cls"]]), "len": 1, "what": s["fault"]}]
            C.do(o, limit=60 * STAGES[s["p"]["cls"]])
            C.u = C.u0
            if i < 0:
                C.do({"op": "reset"})
        n = s["ops"][0]["n"] // 2
        self.repeat(run, work, n, "evolves: %s/%s" % (s["p"]["cls"], s["p"]["form"]))

    def replaced(self, run, s):
        """The states stored by one integration are gone after the next: nobody else has them."""
        C = Client(run, s["p"])
        old = []
        for i, o in enumerate(s["ops"]):
            o = dict(o, t0=0.0, tf=(o["n"] + .01) * s["h"], h=s["h"])
            C.do(o, limit=300 * STAGES[s["p"]["cls"]])
            run.probe["replaced: " + o["op"]] += 1
            for j in range(o["steps"]):
                if C.do({"op": "step", "h": s["h"] * (1 + .1 * j)}, limit=200)["kind"] != "ok":
                    C.do({"op": "reset"})
            C.u = C.u0
            run.env.raised = None       # its traceback knows the states
            gc.collect()
            left = sum(r() is not None for r in old)
            run.check(left <= 2, "kept", lambda: "op %d (%s): %d of the %d states stored before are still in memory" % (i, o["op"], left, len(old)))
            run.nontrivial |= len(old) > 4
            # (the scheme may go on working with one or two of them)
            old = [weakref.ref(x) for x in C.solver.u[1:]] if o["op"] == "evolve" else []

    def make(self, run, s):
        p = s["p"]

        def work(i):
            C = Client(run, p)
            if i % 3:
                C.do({"op": "step", "h": self.size(s, i)}, limit=200)
            if i % 3 == 2:
                C.do({"op": "evolve", "t0": 0.0, "tf": 2.1 * s["h"], "h": s["h"]}, limit=60)
        n = min(s["ops"][0]["n"], 40)
        self.repeat(run, work, n, "make: %s/%s" % (p["cls"], p["form"]))

    def objects(self, run, s):
        w, f = s["what"], s["frac"]
        T = transforms.HankelTransform(5, 1.0)

        def work(i):
            x = 1.0 + (i * GOLD + f) % 1.0
            if w == "hankel-new":
                t = transforms.HankelTransform(20 + i % 13, x)
                t.ht(np.ones(t.nr))
                t.hankel_matrix()
            elif w == "hankel-nr":
                T.nr = 10 + i % 31
                T.ht(np.ones(T.nr))
            elif w == "hankel-rmax":
                T.nr = 20
                T.rmax = x
                T.hankel_matrix()
                T.iht(np.ones(20))
            elif w == "grids":
                grids.construct_x_kx_rfft(64, -x, x)
                grids.construct_x_kx_fft(64, -x, x)
                grids.construct_x_dx_cheb(20, -x, x)
                grids.construct_r_kr_hankel(20, x)
            elif w == "derivs":
                kx = grids.construct_x_kx_rfft(128, -x, x)[1]
                derivatives.dx_rfft(kx, np.cos(np.arange(128) * x), 1 + i % 3)
                kx = grids.construct_x_kx_fft(128, -x, x)[1]
                derivatives.dx_fft(kx, np.cos(np.arange(128) * x), 1 + i % 3)
                y, D = grids.construct_x_dx_cheb(20, -x, x)
                derivatives.dx_cheb(D, np.cos(y), 1 + i % 3)
            elif w == "models":
                kx = grids.construct_x_kx_rfft(128, -x, x)[1]
                for L, N in (models.kdv_ops(kx), models.burgers_ops(kx, x)):
                    N(np.fft.rfft(np.cos(np.arange(128) * x)))
                y, D = grids.construct_x_dx_cheb(20, -x, x)
                N = models.allen_cahn_ops(y, D)[1]
                N(y[1:-1])
            elif w == "soliton":
                y = np.linspace(-x, x, 128)
                models.kdv_soliton(y, x, .1, .2)
                models.kdv_multi_soliton(y, [x, 1.0], [.1, .2], .2)
            else:
                c, e = SolverConfig(epsilon=1e-3 * x), ETDConfig(contour_radius=x)
                for o, nm, v in ((c, "minh", -x), (e, "modecutoff", 2 * x), (c, "minh", 1e-6 * x)):
                    try:
                        setattr(o, nm, v)
                    except ValueError:
                        pass
        self.repeat(run, work, s["ops"][0]["n"], w)
